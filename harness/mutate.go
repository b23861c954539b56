package main

// Mutations of texts: what generated journals do not look like.

import (
	"fmt"
	"math/rand"
	"strings"
)

var hostileTokens = []string{"", " ", "\t", "  ", ";", " ; ", "#", "*", "@", "@@", " @ ", " @@ ", "=", " = ", ":", "::", ":::", "-", "+", ".", ",", "_", "'", "\"", "(", ")", "/",
	"\x00", "\xff", "\xc3", "\r", "\r\n", "\n", "\n\n", "\n  ", "\u00a0", "\u200b", "\ufeff", "é", "日本", "0", "1", "9", "00", "1.", ".1", "1,0", "1.000,00", "92233720368.54775807", "92233720368.54775808", "-92233720368.54775808",
	"99999999999999999999999999", "0.000000001", "1e9", "0x10", "NaN", "Inf", "EUR", "$", "USD 1", "1 USD", "1USD",
	"include", "include ", "account", "account ", "commodity", "commodity ", "P", "P ", "D", "D ", "date:", "; date:2020-01-01", "; code:", "; code:x", "; isin:x", "; isin:", "; isin: ", "comment", "end comment",
	"2020-01-01", "2020-02-30", "0000-01-01", "0001-01-01", "9999-12-31/23:59:59", "2020-01-01/24:00", "1-1-1", "-0001-01-01", "Assets:Transfer account", "Assets", "Assets:Cash", "%s", "%d%n", "{}", "$(x)", "../", "./", "/"}

var hostileLines = []string{"include main.ledger", "include ./main.ledger", "include .", "include ..", "include /", "include", "include sub", "include other.ledger", "include nothing", "include main.ledger/x",
	"D 1.00 EUR", "D 1.000,00 EUR", "D EUR", "D 0", "D", "D $", "D -1.00 $", "commodity 1.00 EUR", "commodity", "commodity 1.00 EUR ; isin:", "commodity 1.00 EUR ; isin: ; isin:x", "commodity EUR 1,000.00", "commodity 1", "commodity 0.00000000 X", "commodity 1.000000000 X", "commodity = 5",
	"account", "account :", "account :a", "account a:", "account a::b", "account Assets:Transfer account", "account  ; code:", "account ; x", "account y ; code:", "P ; x", "D ; x", "commodity ; x", "  a  5 EUR = ; x", "  a  5 EUR @ ; x", "  a  ; x", "  a   @ 5.00 EUR", "  a   @@ 5.00 EUR", "account x ; code:y ; z",
	"P", "P 2020-01-01", "P 2020-01-01 EUR", "P 2020-01-01 EUR 1.00 EUR", "P 2020-01-01 EUR 0 USD", "P 2020-01-01 EUR -1.00 USD", "P 2020-01-01 USD 0.00000001 EUR", "P 2020-01-01 EUR 92233720368.54775807 USD", "P 2020-01-01/00:00:00.5 A 1 B", "P 9999-12-31 EUR 5 USD", "P 0001-01-01 EUR 5 USD",
	"2020-01-01", "2020-01-01 x", "2020-01-01/25 x", "9999-12-31/23:59:59 end", "0001-01-01/00:00:00 begin", "0000-00-00 x",
	"  Assets:Cash  5.00 EUR", "  Assets:Cash", "  a  0", "  a  5 EUR = 5 EUR", "  a  = 0", "  a  = 5 EUR", "  a  5 EUR @ 0 USD", "  a  0 EUR @@ 5 USD", "  a  5 EUR @@ 5 EUR", "  a  5 EUR @ 5 EUR", "  a  92233720368.54775807 EUR @ 92233720368.54775807 USD", "  a  -92233720368.54775808 EUR",
	"  Assets:Transfer account  5.00 EUR", "  :  5 EUR", "  a:  5 EUR", "  :a", "  a::b  1", "  a  5 EUR @", "  a @ 5", "  @@", "  =", "  ;", "  ; date:", "  ; date:0001-01-01", "  ; date:9999-12-31/23:59:59", "  ; date:2020-01-01/x", ";", "", " ", "\t", "  \t ", "\r", "\x00"}

func mutateBytes(r *rand.Rand, s string, tokens []string) string {
	b := s
	for k := 1 + r.Intn(3); k > 0; k-- {
		i := r.Intn(len(b) + 1)
		switch r.Intn(9) {
		case 0: // remove a bit
			n := i + r.Intn(6)
			if n > len(b) {
				n = len(b)
			}
			b = b[:i] + b[n:]
		case 1, 2, 3:
			b = b[:i] + pick(r, tokens...) + b[i:]
		case 4:
			if i < len(b) {
				b = b[:i] + string([]byte{byte(r.Intn(256))}) + b[i+1:]
			}
		case 5: // cut the end
			if chance(r, 30) {
				b = b[:i]
			}
		case 6: // copy a bit from elsewhere
			if len(b) > 0 {
				a := r.Intn(len(b))
				n := a + r.Intn(20)
				if n > len(b) {
					n = len(b)
				}
				b = b[:i] + b[a:n] + b[i:]
			}
		case 7: // change a digit
			for t := 0; t < 20 && len(b) > 0; t++ {
				p := r.Intn(len(b))
				if b[p] >= '0' && b[p] <= '9' {
					b = b[:p] + string([]byte{byte('0' + r.Intn(10))}) + b[p+1:]
					break
				}
			}
		case 8:
			if i < len(b) {
				b = b[:i] + string([]byte{b[i] ^ byte(1<<uint(r.Intn(8)))}) + b[i+1:]
			}
		}
	}
	return b
}

func mutateLines(r *rand.Rand, s string, extra []string) string {
	ls := strings.Split(s, "\n")
	for k := 1 + r.Intn(3); k > 0; k-- {
		i := r.Intn(len(ls))
		switch r.Intn(7) {
		case 0:
			ls = append(ls[:i:i], ls[i+1:]...)
			if len(ls) == 0 {
				ls = []string{""}
			}
		case 1:
			ls = append(ls[:i:i], append([]string{ls[i]}, ls[i:]...)...)
		case 2:
			j := r.Intn(len(ls))
			ls[i], ls[j] = ls[j], ls[i]
		case 3, 4:
			ls = append(ls[:i:i], append([]string{pick(r, extra...)}, ls[i:]...)...)
		case 5: // indent or not
			if strings.HasPrefix(ls[i], " ") {
				ls[i] = strings.TrimLeft(ls[i], " \t")
			} else {
				ls[i] = "  " + ls[i]
			}
		case 6:
			fs := strings.Fields(ls[i])
			if len(fs) > 0 {
				f := r.Intn(len(fs))
				if chance(r, 50) {
					fs[f] = pick(r, hostileTokens...)
				} else {
					fs = append(fs[:f:f], fs[f+1:]...)
				}
				in := ""
				if strings.HasPrefix(ls[i], " ") {
					in = "  "
				}
				ls[i] = in + strings.Join(fs, pick(r, " ", "  "))
			}
		}
	}
	return strings.Join(ls, "\n")
}

func mutate(r *rand.Rand, s string) string {
	switch r.Intn(20) {
	case 0:
		i := r.Intn(len(s) + 1)
		// Deep accounts cost the cube of their depth: slow, but bounded.
		if chance(r, 20) {
			return s[:i] + strings.Repeat(pick(r, ":", "a:", ":a"), 1+r.Intn(80)) + s[i:]
		}
		return s[:i] + strings.Repeat(pick(r, "a", "9", "  ", ",", "1,", ";", "=", "é", "\n", "\n ;", "-"), []int{10, 10, 10, 300, 300, 300, 5000, 70000}[r.Intn(8)]) + s[i:]
	case 1:
		b := make([]byte, r.Intn(200))
		r.Read(b)
		return string(b)
	case 2:
		n := []int{20, 60, 300}[r.Intn(3)]
		if chance(r, 3) {
			n = 2000
		}
		var b strings.Builder
		b.WriteString(s + "\n")
		switch r.Intn(4) {
		case 0: // very many currencies with prices
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, "P 2020-01-01 C%c%c%c 1.5 C%c%c%c\n", 'a'+i%26, 'a'+i/26%26, 'a'+i/676, 'a'+(i+1)%26, 'a'+(i+1)/26%26, 'a'+(i+1)/676)
			}
		case 1: // a deep account
			b.WriteString("account a" + strings.Repeat(":a", n%90) + "\n")
		case 2: // a long transaction
			b.WriteString("9999-01-01 x\n" + strings.Repeat("  a  1.00 EUR\n  b  -1.00 EUR\n", n))
		case 3:
			b.WriteString("9999-01-01 x\n" + strings.Repeat("  ; comment\n", n))
		}
		return b.String()
	case 3, 4, 5, 6, 7, 8, 9:
		return mutateLines(r, s, hostileLines)
	}
	return mutateBytes(r, s, hostileTokens)
}
