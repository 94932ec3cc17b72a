package main

import (
	"fmt"
	"sort"
	"strings"
)

// csvParse reads RFC 4180 records, keeping every byte of quoted fields.
func csvParse(b string) ([][]string, error) {
	var recs [][]string
	var rec []string
	i := 0
	for i < len(b) {
		var f strings.Builder
		if b[i] == '"' {
			i++
			for {
				if i >= len(b) {
					return nil, fmt.Errorf("quoted field does not end")
				}
				if b[i] == '"' {
					if i+1 < len(b) && b[i+1] == '"' {
						f.WriteByte('"')
						i += 2
						continue
					}
					i++
					break
				}
				f.WriteByte(b[i])
				i++
			}
			if i < len(b) && b[i] != ',' && b[i] != '\n' && b[i] != '\r' {
				return nil, fmt.Errorf("%q behind a quoted field", b[i])
			}
		} else {
			for i < len(b) && b[i] != ',' && b[i] != '\n' {
				if b[i] == '"' {
					return nil, fmt.Errorf("bare quote")
				}
				f.WriteByte(b[i])
				i++
			}
		}
		rec = append(rec, f.String())
		if i >= len(b) {
			recs = append(recs, rec)
			return recs, nil
		}
		switch b[i] {
		case ',':
			i++
			if i == len(b) {
				rec = append(rec, "")
				recs = append(recs, rec)
				return recs, nil
			}
			if b[i] == '\n' {
				rec = append(rec, "")
				recs = append(recs, rec)
				rec = nil
				i++
			}
		case '\r':
			if i+1 < len(b) && b[i+1] == '\n' {
				i++
			}
			fallthrough
		case '\n':
			i++
			recs = append(recs, rec)
			rec = nil
		}
	}
	return recs, nil
}

// judgeExport compares a CSV export with a view.
func judgeExport(t *T, what string, b []byte, v mView) {
	recs, err := csvParse(string(b))
	if err != nil {
		t.Fail("%s: not a CSV file: %v\n%s", what, err, tail(string(b), 500))
	}
	keys := map[string]bool{}
	for _, e := range v {
		for k := range e {
			keys[k] = true
		}
	}
	if len(keys) == 0 {
		for _, r := range recs {
			if strings.Join(r, "") != "" {
				t.Fail("%s: nothing to export, but there is %q", what, r)
			}
		}
		return
	}
	if len(recs) == 0 {
		t.Fail("%s: the export is empty, %d entries are missing", what, len(v))
	}
	hdr := recs[0]
	if len(hdr) != len(keys) {
		t.Fail("%s: header %q, want the keys %v", what, hdr, keys)
	}
	seen := map[string]bool{}
	for _, h := range hdr {
		if !keys[h] || seen[h] {
			t.Fail("%s: header %q, want each of %v", what, hdr, keys)
		}
		seen[h] = true
	}
	row := func(vals []string) string { return fmt.Sprintf("%q", vals) }
	var got, want []string
	for _, r := range recs[1:] {
		if len(r) != len(hdr) {
			t.Fail("%s: row %q has %d fields, header %d", what, r, len(r), len(hdr))
		}
		got = append(got, row(r))
	}
	for _, e := range v {
		var r []string
		for _, h := range hdr {
			r = append(r, e[h])
		}
		want = append(want, row(r))
	}
	sort.Strings(got)
	sort.Strings(want)
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			t.Fail("%s: row %s is missing", what, want[i])
		case i >= len(want):
			t.Fail("%s: row %s is too much", what, got[i])
		case got[i] != want[i]:
			t.Fail("%s: row %s, want %s", what, got[i], want[i])
		}
	}
	t.Count("exported_rows", len(got))
}
