package main

// Laying out the lines of a journal in a tree of included files.

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
)

// place tells where a line ended up.
type place struct {
	File string
	Num  int
}

// placed is a journal as it is on disk.
type placed struct {
	Main  string
	Files map[string][]string // content, by real name
	At    []place             // where each line is
	n     int
	total int
}

func startsGroup(l Line) bool {
	t := l.Text
	return l.Kind != "comment" && strings.TrimSpace(t) != "" && t[0] != ' ' && t[0] != '\t'
}

// groups cuts the lines where they may be separated.
func groups(lines []Line) [][2]int {
	var gs [][2]int
	for i, l := range lines {
		if i == 0 || startsGroup(l) && !(len(lines[i-1].Text) > 0 && lines[i-1].Kind == "glue") {
			gs = append(gs, [2]int{i, i + 1})
		} else {
			gs[len(gs)-1][1] = i + 1
		}
	}
	return gs
}

var fileWords = []string{"a.ledger", "prices", "2020 q1.txt", "sub/b.ledger", "sub/deep/c", "../up.ledger", "é.dat", "x/../y.l", "./here.ledger", "P", "include", "../sub/d", "../../top", "../../../q/top.l", "sub/x/y/z.l", "./../k", "sub//m", "../../sub/e", "~/h.l", "~x", `a\b.l`, `"q"`, "'s'.l", "w?x=1.l", "%41.l", "a&b", "$HOME.l", "n#1.l"}

// layOut distributes the lines in files under dir; with pct 0 there is just one file.
func layOut(r *rand.Rand, dir, main string, lines []Line, pct int) *placed {
	p := &placed{Main: filepath.Join(dir, main), Files: map[string][]string{}, At: make([]place, len(lines))}
	gs := groups(lines)
	p.put(r, p.Main, lines, gs, pct, 0)
	return p
}

func (p *placed) add(file, text string) {
	p.Files[file] = append(p.Files[file], text)
}

func (p *placed) put(r *rand.Rand, file string, lines []Line, gs [][2]int, pct, depth int) {
	if _, ok := p.Files[file]; !ok {
		p.Files[file] = []string{}
	}
	i := 0
	for i < len(gs) {
		if pct > 0 && depth < 12 && chance(r, pct) && p.total < 40 {
			n := 1 + r.Intn(len(gs)-i)
			if depth > 3 && n > 1 {
				n = 1 + r.Intn(n)
			}
			// a file nobody else uses
			var name, full string
			for {
				p.n++
				name = fileWords[r.Intn(len(fileWords))]
				if p.n > 6 {
					name = fmt.Sprintf("%s/f%d", pick(r, "sub", "..", ".", "o p", "sub/deep", "../..", "../../.."), p.n)
				}
				full = filepath.Join(filepath.Dir(file), name)
				if _, used := p.Files[full]; !used && strings.Contains(full, "/root/") {
					break
				}
			}
			p.total++
			if chance(r, 20) {
				name = full
			}
			os.MkdirAll(filepath.Dir(full), 0o755)
			if i := strings.Index(name, "/../"); i > 0 { // the directory in the middle
				os.MkdirAll(filepath.Join(filepath.Dir(file), name[:i]), 0o755)
			}
			p.add(file, "include "+pick(r, "", "", " ")+name+pick(r, "", "", "  ", " ; here"))
			p.put(r, full, lines, gs[i:i+n], pct*2/3, depth+1)
			i += n
			continue
		}
		for k := gs[i][0]; k < gs[i][1]; k++ {
			p.add(file, lines[k].Text)
			p.At[k] = place{file, len(p.Files[file])}
		}
		i++
	}
}

func (p *placed) write(c *Ctx) {
	for f, ls := range p.Files {
		text := strings.Join(ls, "\n")
		if len(ls) > 0 && len(text)%3 > 0 {
			text += "\n"
		}
		writeFile(f, text)
		c.Input(f, text)
	}
}

// sameFile tells whether two names are the same file.
func sameFile(a, b string) bool {
	if a == b {
		return true
	}
	x, err := os.Stat(a)
	if err != nil {
		return false
	}
	y, err := os.Stat(b)
	return err == nil && os.SameFile(x, y)
}

// parseAt reads "file:line" at the beginning of s.
func parseAt(s string) (place, string, bool) {
	for i := 0; i < len(s); i++ {
		if s[i] != ':' {
			continue
		}
		k := i + 1
		n := 0
		for k < len(s) && s[k] >= '0' && s[k] <= '9' {
			n = n*10 + int(s[k]-'0')
			k++
		}
		if k > i+1 && (k == len(s) || s[k] == ':' || s[k] == ' ') {
			return place{s[:i], n}, strings.TrimLeft(s[k:], ": "), true
		}
	}
	return place{}, s, false
}
