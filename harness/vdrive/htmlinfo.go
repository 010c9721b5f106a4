package main

import (
	"bytes"
	"encoding/json"
	"strings"

	"golang.org/x/net/html"
)

// analyseHTML tokenizes the report as a browser does and extracts the data assignment.
func analyseHTML(b []byte) (json.RawMessage, *HTMLInfo) {
	info := &HTMLInfo{Structure: []string{}}
	z := html.NewTokenizer(bytes.NewReader(b))
	var scripts []string
	cur := ""
	var report json.RawMessage
	for {
		tt := z.Next()
		if tt == html.ErrorToken {
			break
		}
		switch tt {
		case html.StartTagToken, html.SelfClosingTagToken:
			t := z.Token()
			cur = t.Data
			el := t.Data
			for _, a := range t.Attr {
				el += " " + a.Key
			}
			info.Structure = append(info.Structure, el)
			if t.Data == "script" {
				scripts = append(scripts, "")
			}
		case html.EndTagToken:
			t := z.Token()
			info.Structure = append(info.Structure, "/"+t.Data)
			cur = ""
		case html.TextToken:
			txt := string(z.Raw())
			switch cur {
			case "script":
				scripts[len(scripts)-1] += txt
			case "style":
				info.Style = clientCSS[txt]
			default:
				if strings.TrimSpace(txt) != "" {
					info.Structure = append(info.Structure, "#text")
				}
			}
		case html.CommentToken:
			info.Structure = append(info.Structure, "#comment")
		}
	}
	info.Scripts = len(scripts)
	n := len(info.Structure)
	info.Complete = n >= 2 && info.Structure[n-1] == "/html" && info.Structure[n-2] == "/body"
	const pre = "window.grParam ="
	for i, s := range scripts {
		st := strings.TrimSpace(s)
		if strings.HasPrefix(st, pre) {
			info.Data = s
			// U+2028/9 raw inside a script would end a line in older engines; JSON accepts them
			dec := json.NewDecoder(strings.NewReader(st[len(pre):]))
			var raw json.RawMessage
			if err := dec.Decode(&raw); err == nil {
				rest := strings.TrimSpace(st[len(pre)+int(dec.InputOffset()):])
				info.DataOK = true
				info.TailOK = rest == "" || rest == ";"
				report = raw
				if strings.ContainsAny(string(raw), "\u2028\u2029") {
					info.Note = "raw line separator"
				}
			} else {
				info.Note = err.Error()
			}
		} else if n, ok := clientJS[s]; ok && i == len(scripts)-1 {
			info.Client = n
		}
	}
	return report, info
}
