package main

import (
	"net/url"
	"strconv"
	"strings"
)

// Names that one way or another of cleaning, folding, shortening or hashing names
// would take for one another. They are different names, and an object may have both.

var kinBases = []string{"a", "ab", "a.txt", "Abc", "É\u00e9", "1", "10", "-1", ".x", "a/b", "a b", "tree", "mode", "K", "strasse", "\xff\xfe", "%41", "\"q\"", rep("n", 255), rep("m", 4096)}

var kinForms = []func(string) string{
	func(s string) string { return "." + s },
	func(s string) string { return ".." + s },
	func(s string) string { return s + "." },
	func(s string) string { return s + " " },
	func(s string) string { return " " + s },
	func(s string) string { return s + "/" },
	func(s string) string { return "/" + s },
	func(s string) string { return "./" + s },
	func(s string) string { return "a/../" + s },
	func(s string) string { return s + "/." },
	func(s string) string { return strings.ReplaceAll(s, "/", "\\") },
	func(s string) string { return strings.ReplaceAll(s, "/", "//") },
	func(s string) string { return s + "\n" },
	func(s string) string { return s + "\r" },
	func(s string) string { return s + "\t" },
	func(s string) string { return "\ufeff" + s },
	func(s string) string { return s + "\u200d" },
	func(s string) string { return s + "~" },
	func(s string) string { return s + ".git" },
	func(s string) string { return s + "\x01" },
	func(s string) string { return s + "x" },
	func(s string) string { return s + s },
	func(s string) string { return s + "\x7f" },
	func(s string) string { return "0" + s },
	func(s string) string { return "+" + s },
	func(s string) string { return "-" + s },
	func(s string) string { return "~" + s },
	func(s string) string { return "#" + s },
	func(s string) string { return s + "#x" },
	func(s string) string { return s + "?x" },
	func(s string) string { return "x:" + s },
	func(s string) string { return s + ":x" },
	func(s string) string { return s + "=" },
	strings.ToUpper,
	strings.ToLower,
	func(s string) string { return strings.ReplaceAll(s, "K", "\u212a") }, // the Kelvin sign
	func(s string) string { return strings.ReplaceAll(s, "s", "\u017f") }, // the long s
	func(s string) string { return strings.ReplaceAll(s, "\u00e9", "e\u0301") },
	func(s string) string { return strings.ToValidUTF8(s, "\ufffd") },
	func(s string) string { return strings.ReplaceAll(s, "\xff", "?") },
	func(s string) string { return strings.ReplaceAll(s, " ", "_") },
	func(s string) string { return strings.ReplaceAll(s, " ", "  ") },
	func(s string) string { return strings.ReplaceAll(s, ".", "_") },
	url.PathEscape,
	url.QueryEscape,
	func(s string) string { u, _ := url.PathUnescape(s); return u },
	strconv.Quote,
	func(s string) string { return strings.Trim(s, `"`) },
	func(s string) string { u, _, _ := strings.Cut(s, "."); return u },
	func(s string) string { return s[:len(s)-1] },
	func(s string) string { return s[1:] },
	func(s string) string { return s[:len(s)-1] + "!" },
	func(s string) string { return "!" + s[1:] },
	func(s string) string { return s[:len(s)/2] + "!" + s[min(len(s)/2+1, len(s)):] },
	func(s string) string { b := []byte(s); b[0], b[len(b)-1] = b[len(b)-1], b[0]; return string(b) },
	func(s string) string { b := []byte(s); b[len(b)-1] ^= 0x80; return string(b) },
	func(string) string { return "" },
}

// kinFixed have the same Adler-32, CRC-32, CRC-32C, FNV-1, FNV-1a or one of the
// simple rolling checksums.
var kinFixed = [][2]string{
	{"f05a2fc3", "fb1531bf"}, {"fed7a8fa", "f6923e09"}, {"fb8d0902", "fde9f296"}, {"f538453d", "ff1bbcd8"},
	{"fd403f92", "f2dd3cd6"}, {"f1a136d5", "ff2d9ffb"}, {"fe038864", "fa63b7ee"}, {"f975e963", "f59501ba"},
	{"Aa", "BB"}, {"ab", "ba"}, {"a", "\u0430"}, {"con", "con.txt"}, {"1", "01"}, {"1", "1.0"}, {"0x1", "1"}, {"9223372036854775808", "-9223372036854775808"}, {"18446744073709551617", "1"}, {"4294967297", "1"}, {"256", "0"},
}

// kin picks two such names; ok is false if the form leaves the name as it is or
// makes one that no tree can hold.
func kin(x *X) (a, b string, ok bool) {
	if k := x.All(len(kinBases) + 1); k < len(kinBases) {
		a = kinBases[k]
		b = kinForms[x.All(len(kinForms))](a)
	} else {
		p := kinFixed[x.All(len(kinFixed))]
		a, b = p[0], p[1]
	}
	if x.All(2) == 1 {
		a, b = b, a
	}
	if ok = a != b && !strings.Contains(a+b, "\x00"); !ok {
		x.Outcome("not two names")
	}
	return
}
