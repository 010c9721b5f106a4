/* stand-in for the bundled client */ window.grClient = "mermaid";
