
NOTE.update({
 "C07": "Scope.tla resolves every reference of a query by SQL's rules; TLC enumerates a small universe of queries (MCScope, lemmas checked) and a sample is replayed, plus random nested queries over random schemas on all three backends; TLC judges every report. Trusts Scope.tla's rules; constructs the analyser refuses are left to C25.",
 "C08": "As C07: TLC computes the exact candidate set of every query and compares it with the report.",
 "C09": "Random existing indexes (same, permuted, shorter, longer, other table, other case, quoted names); TLC computes what must be withheld.",
 "C10": "Repeated runs and meaning-preserving rewritings of random queries; TLC requires equal and canonically ordered reports.",
 "C24": "Catalogs with same-named tables in other schemas, views, system columns, missing tables; TLC computes the suggestions from the configured schema alone.",
 "C25": "Random supported queries with one unsupported construct planted at a random place; TLC requires a refusal without report.",
})
TECH.update({k: "TLA+ specification Scope of name resolution and candidates; queries enumerated by TLC and random ones replayed into gr, reports judged by TLC" for k in ("C07","C08","C09","C10","C24","C25")})
NOTE.update({
 "C11": "Plan.tla defines the tree of a sequence of indentations; TLC enumerates all depth sequences up to a bound (MCPlan, lemmas checked), they and random plans are printed by a stand-in MySQL, and TLC judges the tree in the report. Plans are plan texts of the documented format.",
 "C12": "As C11 for PostgreSQL and Hasura: plan nodes with details, InitPlan/SubPlan/CTE headings, with and without summary.",
 "C13": "Plan nodes with every subset of the cost/actual parts and numbers in the notations the databases print; TLC compares each shown figure with the printed one.",
 "C14": "Jaeger.tla's window rules judged by TLC on recorded gRPC requests for random start times, thresholds and limits and faults at any search; the clock is the sandbox's, so 'now' is bounded by the run.",
 "C15": "Random and TLC-enumerated span forests delivered in random order and grouping by a stand-in Jaeger; TLC builds the trees and compares them with the report.",
 "C16": "As C15: TLC computes the compacted tree.",
 "C17": "Up to several hundred traces around the limit of 100, ties and counts around the threshold; TLC decides which lists are admissible.",
 "C18": "TLC computes every span's own time by counting unit time steps and requires the blamed service to be a maximum.",
})
TECH.update({k: "TLA+ specification Plan of plan texts and trees, small plans enumerated by TLC; plans served to gr, reports judged by TLC" for k in ("C11","C12","C13")})
TECH.update({k: "TLA+ specification Jaeger of the search windows, trees, compaction and ranking, small forests enumerated by TLC; served to gr over gRPC, requests and reports judged by TLC" for k in ("C14","C15","C16","C17","C18")})

NOTE.update({
 "C19": "PI.tla models the whole run (pages, windows, groupings, failure anywhere); TLC-enumerated plans and random ones are run against a stand-in for RDS and Performance Insights; TLC judges every recorded request history.",
 "C20": "As C19 with data points at the edges of hours, windows and the period in many time zones; values are multiples of 1/1024, so that sums are exact; TLC computes every load.",
})
TECH.update({k: "TLA+ specification PI (state machine MCPI explored by TLC); plans replayed into gr against an AWS stand-in, requests and reports judged by TLC" for k in ("C19","C20")})

NOTE.update({
 "C06": "MCQuery enumerates small texts and JSON documents over the characters that matter; they and random ones are run on all backends; TLC compares the texts and variables at the server, in the report and in the offered command. Texts are one SELECT with NUL-free literals and comments.",
 "C21": "MCPage states the escaping and how a browser ends a script, and TLC checks for all short texts over the dangerous atoms that it is safe and reversible; those texts and many others are put at every place of every command's input, the page is taken apart by an HTML tokenizer, the data is evaluated by node, and TLC compares with the same run over plain words. Valid Unicode only.",
 "C22": "MCCommand runs every command step by step with a fault of every kind at every step; all plans are replayed into gr with the output file absent, present or unwritable; TLC judges exit status, message and file. Not covered: servers that never answer, disks that fill during the write other than /dev/full.",
 "C23": "MCConfig enumerates all subsets of settings and the characters in each; gr is run under them, and TLC compares what the server received (login packets, headers, request paths, catalog arguments) with the settings.",
})
TECH.update({
 "C06": "TLA+ specification Query, texts and variables enumerated by TLC and replayed into gr; what server and report show judged by TLC",
 "C21": "TLA+ specification Page of escaping and script parsing checked by TLC; hostile texts replayed into gr, pages judged by TLC",
 "C22": "TLA+ specification Command (state machine with faults) explored by TLC; all fault plans replayed into gr, outcomes judged by TLC",
 "C23": "TLA+ specification Config, settings enumerated by TLC and replayed into gr; what the servers received judged by TLC",
})

NOTE.update({
 "C26": "MCShell enumerates texts over the characters a shell minds and proves the splitting rules by lemma; they and random ones are options, queries and names on every kind of page. The client's sources are compiled by a small Svelte compiler of the harness and run under Node with stand-ins for the chart and widget libraries; TLC takes the shown command apart. Not covered: history expansion (!).",
 "C27": "SqlText.tla reads identifiers, folding and reserved words of MySQL and PostgreSQL and the JSON of the curl command; names enumerated by TLC are put into every kind of report, TLC judges the offered statement. Pages run as for C26.",
 "C28": "MCTimeline enumerates small forests of plan nodes with figures; they and random plans are shown on the three pages; TLC computes every bar, name and figure. The chart library is a stand-in recording what it is given.",
 "C29": "MCDiagram enumerates small call trees; they and random lists are shown; TLC compares rows, links and diagram. The diagram library is a stand-in recording the diagram text; service names have no characters special to it.",
 "C30": "MCLoads enumerates small sets of loads, larger ones are random around the limits; TLC computes ranking, timeline, list and compares. Loads are multiples of 1/1024, so that sums are exact.",
 "C31": "All small lists of times and random ones; TLC compares rows, order and reductions. No claim for a reduction from an original time of 0.",
 "C32": "Reports written by the real commands against the stand-ins of C01-C20 (examination failures, empty answers, every kind) are opened with the client of /repo; TLC compares sections and texts.",
 "C33": "MCShown enumerates texts over the characters of markup; every page is rendered over plain words and over them, TLC takes the markup apart and requires the same elements and the texts as they are.",
})
TECH.update({
 "C26": "TLA+ specification Shell (word splitting, options), texts enumerated by TLC and put into the pages of the client; offered commands judged by TLC",
 "C27": "TLA+ specification SqlText (identifiers of both dialects, JSON), names enumerated by TLC and put into the pages; offered statements judged by TLC",
 "C28": "TLA+ specification Timeline, plans enumerated by TLC and shown by the client; bars and figures judged by TLC",
 "C29": "TLA+ specification Diagram, call trees enumerated by TLC and shown by the client; lists and diagrams judged by TLC",
 "C30": "TLA+ specification Loads, loads enumerated by TLC and shown by the client; charts and lists judged by TLC",
 "C31": "TLA+ specification Shown; small results enumerated and shown by the client; tables judged by TLC",
 "C32": "TLA+ specification Shown; reports of real runs opened with the client, pages judged by TLC",
 "C33": "TLA+ specification Shown (markup), texts enumerated by TLC and put into every page; markup judged by TLC",
})

NOTE.update({
 "C34": "MCTerminal explores every command with a failure of every kind at every step, numbers of candidates, times and outputs; runs of the real gr are recorded (terminal, requests, report) and TLC compares announcements, listings and the told place. Wording is that of the tree's announcements; lines of other kinds are ignored.",
 "C35": "MCSecret enumerates commands, failures and the characters of secrets; each plan is run twice with different secrets, everything shown is searched for the secret in every usual writing, and TLC requires both runs to show the same. Not covered: memory of the process, the process list.",
})
TECH.update({
 "C34": "TLA+ specification Terminal, runs with faults explored by TLC and replayed into gr; the terminal judged by TLC against requests and report",
 "C35": "TLA+ specification Secret (noninterference), plans enumerated by TLC and replayed into gr twice; what both runs show judged by TLC",
})

NOTE.update({"C36": "MCAws enumerates settings of environment and profile files; the real gr runs through a proxy that stands for AWS (certificates of its own authority, given by AWS_CA_BUNDLE), which records host, account, region and verifies every signature; TLC compares with the settings and the report with that of the mock. Not covered: SSO, roles, instance metadata; a session token shown by -v (the SDK logs it)."})
TECH.update({"C36": "TLA+ specification Aws (resolution of settings), plans enumerated by TLC and replayed into gr; requests and report judged by TLC"})
