// Command regprobe registers backends in a fresh process and opens data sources, telling what happened.
//
//	regprobe ACTION...   where ACTION is reg:NAME, nil:NAME, open:DATASOURCE or fail:NAME
package main

import (
	"errors"
	"fmt"
	"os"
	"strings"

	"github.com/cespedes/accounting"
)

type conn struct{}

func (conn) Close() error { return nil }
func (conn) Refresh()     {}

type driver struct {
	name string
	n    int
	fail bool
}

var called string

func (d driver) Open(url string, b *accounting.Backend) (accounting.Connection, error) {
	called += fmt.Sprintf("%s#%d(%s) ", d.name, d.n, url)
	if d.fail {
		return nil, errors.New("refused by " + d.name)
	}
	return conn{}, nil
}

func main() {
	for i, a := range os.Args[1:] {
		k := strings.Index(a, ":")
		what, arg := a[:k], a[k+1:]
		func() {
			defer func() {
				if r := recover(); r != nil {
					fmt.Printf("%s: panic\n", a)
				}
			}()
			called = ""
			switch what {
			case "reg":
				accounting.Register(arg, driver{name: arg, n: i})
			case "fail":
				accounting.Register(arg, driver{name: arg, n: i, fail: true})
			case "nil":
				accounting.Register(arg, nil)
			case "open":
				l, err := accounting.Open(arg)
				fmt.Printf("%s: %sledger=%v error=%v\n", a, called, l != nil, err != nil)
				return
			}
			fmt.Printf("%s: done\n", a)
		}()
	}
}
