package main

import "strings"

// Twins are pairs of texts that are easily taken for each other: they have the
// same value under common hash functions, however their suffix goes on, or
// differ in one character only, or in what a normalisation removes.
type twin struct{ prefix, a, b string }

var twins = []twin{
	{"", "djwksgal", "zthubgjm"}, // fnv32
	{"$fx(\"", "xmgqzezi", "trwzodbk"},
	{"", "ocneakru", "tzkmwmga"}, // fnv32a
	{"$fx(\"", "remhzvtj", "yrvwdrsu"},
	{"", "mtwvnfrr", "numubhru"}, // low word of fnv64
	{"$fx(\"", "nhbqovqb", "cupxthxc"},
	{"", "kjrnettk", "khieadgr"}, // low word of fnv64a
	{"$fx(\"", "txwbsljk", "tgkzpysg"},
	{"", "mwemdcaj", "dwdpvqtm"}, // crc32
	{"$fx(\"", "mwemdcaj", "dwdpvqtm"},
	{"", "szbibtcy", "rrrnuuxw"}, // crc32c
	{"$fx(\"", "szbibtcy", "rrrnuuxw"},
	{"", "smggutcw", "ulcvlcpx"}, // adler32
	{"$fx(\"", "smggutcw", "ulcvlcpx"},
	{"", "lobvnyxg", "ehawdavq"}, // sdbm
	{"$fx(\"", "lobvnyxg", "ehawdavq"},
	{"*", "AaBB", "BBAa"}, // h*31+c
	{"*", "mBA", "mAb"},   // h*33+c
	{"*", "abcd", "abdc"}, // sums
	{"*", "adda", "bccb"},
	{"*", "Word", "word"},
	{"*", "one", "ones"},
	{"*", "tail", "tail-s"},
}

// texts that differ at the end, or in what is trimmed or folded
var tails = [][2]string{{"", " "}, {"", "\n"}, {".", ","}, {"a b", "a  b"}, {"e", "é"}, {"", "."}, {" a", "a "}, {"\r\n", "\n"}, {"\t", " "}}

func pickTwin(r *Rand, prefix string) twin {
	for {
		if t := twins[r.N(len(twins))]; t.prefix == prefix || t.prefix == "*" {
			return t
		}
	}
}

// twinText returns two texts, of which one comes first or last in a template.
func twinText(r *Rand) (words [2]string, last bool) {
	switch r.N(4) {
	case 0:
		t := strings.Repeat(pick(r, "a", "lorem ", "x;", "_"), r.In(1, 400))
		w := pickTwin(r, "")
		return [2]string{";" + t + w.a, ";" + t + w.b}, r.P(70)
	case 1:
		t := tails[r.N(len(tails))]
		return [2]string{";" + t[0], ";" + t[1]}, r.P(60)
	}
	w := pickTwin(r, "")
	return [2]string{w.a, w.b}, false
}

// mark is plain text that is kept while a violation is minimised.
func (g *Gen) mark(text string) *Stmt {
	s := g.stmt(text, func(e *Env, s *Stmt) { e.out.WriteString(text) })
	s.IsTxt, s.Keep = true, true
	return s
}
