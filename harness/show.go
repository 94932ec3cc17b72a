package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"time"
)

var showLine = regexp.MustCompile(`^  (\S+):\s*(.*)$`)

// parseShow reads the output of show for entries whose keys have no white space and whose values
// are single lines without surrounding blanks.
func parseShow(out string) map[string]string {
	m := map[string]string{}
	for _, l := range strings.Split(out, "\n") {
		if p := showLine.FindStringSubmatch(l); p != nil {
			m[p[1]] = p[2]
		}
	}
	return m
}

// expectShow is what show displays for such an entry (without the number of snapshots).
func expectShow(e map[string]string) map[string]string {
	m := map[string]string{}
	for k, v := range e {
		switch k {
		case "updated":
			n, err := strconv.ParseInt(v, 10, 64)
			if err != nil {
				panic(inconclusive(fmt.Sprintf("generated updated %q", v)))
			}
			m[k] = time.Unix(0, n).UTC().Format(time.RFC3339)
		case "labels":
			m[k] = strings.Join(strings.Split(v, ","), ", ")
		default:
			m[k] = v
		}
	}
	return m
}
