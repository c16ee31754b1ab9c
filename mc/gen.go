package main

import (
	"fmt"
	"strings"
)

// The alphabets. The first element of each is the ordinary value, any other one
// costs a deviation where it is chosen with X.Str.

func rep(s string, n int) string { return strings.Repeat(s, n) }

const (
	hexA = "0123456789abcdef0123456789abcdef01234567"
	hexB = "fedcba9876543210fedcba9876543210fedcba98"
)

var hexes = append([]string{
	hexA, hexB,
	rep("0", 40), rep("f", 40), rep("0a", 20), rep("20", 20), rep("00ff", 10),
	"00" + rep("11", 19), rep("11", 19) + "00", "0d0a" + rep("22", 18),
	"4b825dc642cb6eb9a060e54bf8d69288fbee4904",
}, litHexes()...)

// litHexes are the object ids among the constants of the code.
func litHexes() (out []string) {
	for _, s := range litStrings {
		if len(s) == 40 && strings.Trim(s, "0123456789abcdef") == "" {
			out = append(out, s)
		}
	}
	return out
}

// hexN is the n-th of a family of distinct object ids.
func hexN(n int) string { return fmt.Sprintf("%08x%032x", n*2654435761&0xffffffff, n+1) }

// lens are lengths around the buffer sizes, powers of two and digit counts where
// code changes its behaviour.
var lens = around([]int{0, 1, 2, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257,
	511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4000, 4077, 4090, 4094, 4095, 4096, 4097, 4098, 4100, 4200,
	8190, 8191, 8192, 8193, 8200, 9999, 10000, 10001, 12288, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 99999, 100000, 131072}, 1<<18)

var names = []string{
	"A U Thor", "", "A", "x y", " lead", "   lead3", "trail ", "trail   ", "two  inner", "a   b  c", " ", "  ",
	"é", "世界 名", "\xff\xfe", "%s %d %!", "a<b", "a>b", "a> b", "a<b> c", "x\r", "\t", "tab\tin", "quote\"'\\", "tree 0123", "nul\x00in", "a@b", "0", "-1 +0000",
	"author x", "1234567890 +0100", ">", "> >", "a,b;c", "(paren)", "[bot]", rep("long", 1200), rep("w ", 150) + "w", rep("n", 4096),
}

var emails = []string{
	"a@b.c", "", "x", "a b@c", "a  b", " lead", "trail ", "  ", " ", "<", "<x", "a<b", "a <b", "a<b>", "a>", "a>b", ">", ">>", "é@ü", "\xff", "%s%d", "x\r", "\t", "a\tb", "\x00",
	"a b c d e f", "<<a>>", "a< b", "a <", "author x", rep("e", 5000), rep("e ", 150) + "e", "none@none", "a@b.c 1234567890 +0000",
}

var dates = []string{"1234567890", "", "0", "1", "-1", "-62135596800", "2147483647", "2147483648", "4294967296", "9223372036854775807", "99999999999999999999999", "+5", "007", "abc", "1.5", "1e9", "@12", "1234567890\r", "\t", "%d", "é", "<1>", rep("9", 4100), "12:30"}

var zones = []string{"+0000", "-0000", "", "+0530", "-0330", "+1400", "-1200", "+9999", "0000", "+00000", "+0", "-", "UTC", "+05:30", "+051800", "0", "%s", "\r", "é", "<x>", "a>", rep("0", 4100), "+0000 more", "+0000 ", " +0000", "  ", "1 +0000  x > y <"}

var messages = []string{
	"subject\n\nbody line\n", "", "x", "\n", "\n\n", "\n\n\nafter blanks\n", "no newline at end", "ends\n\n\n", "crlf\r\nline\r\n", "\r\n", "\r", "nul\x00in\x00it\x00", "\x00",
	"tree " + hexA + "\nparent " + hexB + "\n\nnested\n", "author x <y> 1 +0\n", "gpgsig -----BEGIN PGP SIGNATURE-----\n \n x\n -----END PGP SIGNATURE-----\n", "mergetag object " + hexA + "\n type commit\n",
	"object " + hexA + "\ntype commit\ntag t\ntagger z <z> 1 +1\n", "encoding x\n", "-----BEGIN PGP SIGNATURE-----\n\nabc\n-----END PGP SIGNATURE-----\n",
	" lead", "\tlead", "  \n  ", "é世界\n", "\xff\xfe\x80\n", "\xef\xbb\xbfbom\n", "%s%d%v%!\n", "\\n\\t\n", "<a> & \"b\"\n",
	rep("m", 4096), rep("line\n", 1000), rep("\n", 5000), rep("m", 70000), "{\"/\":\"x\"}",
}

var encodings = []string{"ISO-8859-1", "UTF-8", "", "x", " lead", "trail ", "two words", "\r", "é", "\xff", "%s", "i18n/äöü", rep("e", 5000), "tree " + hexA}

var otherLines = []string{
	"HG:extra branch:default", "x", "change-id abc", "gpgsig-sha256 -----BEGIN PGP SIGNATURE-----", "gpgsig -----BEGIN SSH SIGNATURE-----", "gpgsig -----BEGIN SIGNED MESSAGE-----", "gpgsig x", "gpgsig", "gpgsig ",
	"gpgsig -----BEGIN PGP SIGNATURE----- ", "gpgsig -----BEGIN PGP SIGNATURE-----\r", "gpgsig  -----BEGIN PGP SIGNATURE-----", "Gpgsig -----BEGIN PGP SIGNATURE-----",
	" continuation", "  two", " ", " -----END PGP SIGNATURE-----", " type commit", "tree", "treeX", "trees " + hexA, "parent", "parents x", "author", "authored by", "committer", "committers", "encoding", "encodingX", "mergetag", "mergetag x", "mergetag objects", "mergetag object",
	"\r", "\t", "\x00", "tab\there", "a: b", "%d %s", "é", "\xff", "Tree " + hexA, "object " + hexA, "type commit", "tag x", "tagger a <b> 1 +0", rep("o", 4090), rep("o", 5000), rep("o", 9000),
}

var tagNames = []string{"v1.0", "", "v", "with space", " lead", "trail ", "refs/tags/x", "é", "\xff", "\r", "%s", "a\tb", "tag x", "type commit", "\x00", rep("t", 5000), "v1.0 <x>"}

var tagTypes = []string{"commit", "tree", "blob", "tag", "", "x", "commit ", " commit", "é", "\r", "%s", rep("t", 4200)}

var mtMsgs = [][]string{
	{" merged tag"}, {}, {" "}, {" ", " "}, {" subject", " ", " body"}, {" a", " -----BEGIN PGP SIGNATURE-----", " ", " abc", " -----END PGP SIGNATURE-----"},
	{"  indented"}, {" type commit"}, {" tag x"}, {" tagger a <b> 1 +0"}, {" object " + hexA}, {" mergetag object " + hexA}, {" tree " + hexA}, {" gpgsig -----BEGIN PGP SIGNATURE-----"}, {" crlf\r"}, {" é\xff"}, {" \x00"}, {" %s"},
	{" " + rep("m", 4090)}, {" " + rep("m", 5000)}, lines(" l", 700), {" x", "   "}, {" \t"},
}

var sigFirst = []string{" ", " Version: GnuPG v2", " Comment: c", " Version: ", " Version: GnuPG v1.4.11 (GNU/Linux)\r", " Comment: https://x", " Version: é\xff%s", " Version: " + rep("v", 4100), " Comment: ", " Hash: SHA256", " Charset: UTF-8", " MessageID: x", " iQEcBAABAgAGBQJ", "  ", " -----END PGP SIGNATURE----- "}

var sigLines = [][]string{
	{" iQEcBAABAgAGBQJ", " =abcd"}, {}, {" "}, {" x"}, {" ", " abc"}, {" -----END PGP SIGNATURE----- "}, {"  -----END PGP SIGNATURE-----"}, {" -----END PGP SIGNATURE-----\r"}, {" -----END PGP SIGNATURE"}, {" -----BEGIN PGP SIGNATURE-----"}, {" Version: 2", " "}, {" crlf\r"}, {" tree " + hexA}, {" gpgsig x"}, {" é\xff%s\x00"},
	{" " + rep("s", 4096)}, {" " + rep("s", 9000)}, lines(" s", 1000), {" -----END PGP MESSAGE-----"}, {" \t", " a b  c "},
}

func lines(p string, n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, fmt.Sprintf("%s%d", p, i))
	}
	return out
}

// genPerson chooses a person; every field may deviate.
func genPerson(x *X) *Person {
	p := &Person{Name: x.Str(names), Email: x.Str(emails)}
	if x.Bool() { // neither date nor timezone
		return p
	}
	p.Date, p.TZ = x.Str(dates), x.Str(zones)
	return p
}

func genMergeTag(x *X) MergeTag {
	m := MergeTag{Object: x.Str(hexes), Type: x.Str(tagTypes), Tag: x.Str(tagNames)}
	if !x.Bool() {
		m.Tagger = genPerson(x)
	}
	m.Msg = mtMsgs[x.Choose(len(mtMsgs))]
	return m
}

func genSig(x *X) *Sig {
	return &Sig{x.Str(sigFirst), sigLines[x.Choose(len(sigLines))]}
}

var parentCounts = around([]int{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 66, 100, 255, 256, 257}, 5000)

// A shape says which parts a commit has.
type shape struct {
	parents, mergetags, other    int
	author, committer, enc, sign bool
}

// fill gives values to the parts of a commit.
func (s shape) fill(x *X) *Commit {
	c := &Commit{Tree: x.Str(hexes)}
	for i := 0; i < s.parents; i++ {
		if i < 2 {
			k := x.Choose(len(hexes) + 1)
			if k == 0 {
				c.Parents = append(c.Parents, hexN(i))
			} else {
				c.Parents = append(c.Parents, hexes[k-1])
			}
		} else {
			c.Parents = append(c.Parents, hexN(i))
		}
	}
	if s.author {
		c.Author = genPerson(x)
	}
	if s.committer {
		c.Committer = genPerson(x)
	}
	if s.enc {
		e := x.Str(encodings)
		c.Encoding = &e
	}
	for i := 0; i < s.mergetags; i++ {
		c.Mergetags = append(c.Mergetags, genMergeTag(x))
	}
	if s.sign {
		c.Sig = genSig(x)
	}
	for i := 0; i < s.other; i++ {
		c.Other = append(c.Other, x.Str(otherLines))
	}
	c.fixOther()
	c.Message = x.Str(messages)
	return c
}

// fixOther keeps the commit canonical: a line with a leading space right after a
// mergetag is part of that mergetag's message.
func (c *Commit) fixOther() {
	if len(c.Other) > 0 && len(c.Mergetags) > 0 && c.Sig == nil && strings.HasPrefix(c.Other[0], " ") {
		c.Other[0] = "o" + c.Other[0]
	}
}

// bytesAt enumerates every byte value at the start, in the middle and at the end
// of a string.
func byteAt(x *X, base string) (string, byte) {
	b := byte(x.All(256))
	switch x.All(3) {
	case 0:
		return string([]byte{b}) + base, b
	case 1:
		return base[:1] + string([]byte{b}) + base[1:], b
	default:
		return base + string([]byte{b}), b
	}
}

// word enumerates all strings over an alphabet up to a length.
func word(x *X, alphabet []string, max int) string {
	n := x.All(max + 1)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(alphabet[x.All(len(alphabet))])
	}
	return b.String()
}

// personOK says whether a person line can only be read one way: no newline, a
// name that does not reach the email early, an email that does not end early.
func personOK(p *Person) bool {
	if strings.ContainsRune(p.Name+p.Email+p.Date+p.TZ, '\n') || strings.HasPrefix(p.Name, "<") || strings.Contains(p.Name, " <") {
		return false
	}
	if strings.Contains(p.Email, "> ") || strings.Contains(p.Date, " ") {
		return false
	}
	return true
}
