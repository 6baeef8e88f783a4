namespace { string ints_text() { return ""; } }
