//go:build gensim

package main

import (
	"fmt"
	"regexp"
	"strings"
)

var declRe = regexp.MustCompile(`(?m)^\s*(data|enum|server)\s+([A-Za-z_][A-Za-z0-9_]*)`)

func plain(s string) string {
	return strings.ToLower(strings.ReplaceAll(s, "_", ""))
}

// notWhole says why files are not all that building sources should give, as
// far as that shows without knowing the generators: every type is written
// somewhere, and every file closes what it opens.
func notWhole(typ string, files, out map[string]string) string {
	words := map[string]bool{}
	for _, n := range sortedKeys(out) {
		if why := cutOff(typ, out[n]); why != "" {
			return n + " " + why
		}
		for _, w := range wordRe.FindAllString(out[n], -1) {
			words[plain(w)] = true
		}
	}
	for _, n := range sortedKeys(files) {
		if !strings.HasSuffix(n, ".hbuf") {
			continue
		}
		if pk := regexp.MustCompile(`(?m)^package ` + typ + ` *=`); (typ == "go" || typ == "java") && !pk.MatchString(files[n]) {
			continue // no code is wanted
		}
		for _, m := range declRe.FindAllStringSubmatch(files[n], -1) {
			if !words[plain(m[2])] {
				return fmt.Sprintf("no file has %s %s of %s", m[1], m[2], n)
			}
		}
	}
	return ""
}

var wordRe = regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_]*`)

// cutOff finds brackets left open.
func cutOff(typ, text string) string {
	if strings.TrimSpace(text) != "" && !strings.HasSuffix(text, "\n") {
		return "ends in the middle of a line"
	}
	var open []byte
	for i := 0; i < len(text); i++ {
		switch c := text[i]; c {
		case '(', '[', '{':
			if typ != "dart" || c == '{' { // not all others are closed at some types
				open = append(open, c)
			}
		case ')', ']', '}':
			if typ == "dart" && c != '}' {
				continue
			}
			if len(open) == 0 || open[len(open)-1] != map[byte]byte{')': '(', ']': '[', '}': '{'}[c] {
				return fmt.Sprintf("has %q too many", c)
			}
			open = open[:len(open)-1]
		case '/':
			if strings.HasPrefix(text[i:], "//") {
				for i < len(text) && text[i] != '\n' {
					i++
				}
			} else if strings.HasPrefix(text[i:], "/*") {
				j := strings.Index(text[i+2:], "*/")
				if j < 0 {
					return "ends in a comment"
				}
				i += j + 3
			}
		case '"', '\'', '`':
			for i++; i < len(text) && text[i] != c; i++ {
				if text[i] == '\\' && c != '`' {
					i++
				}
			}
			if i >= len(text) {
				return "ends in a string"
			}
		}
	}
	if len(open) > 0 {
		return fmt.Sprintf("ends with %d brackets open", len(open))
	}
	return ""
}
