package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

// Independent data model of the payload: the documented JSON shape and the documented meaning of
// each kind of record. Nothing here uses the code under test.

type mTx struct {
	Time  int64  `json:"time,omitempty"`
	Kind  string `json:"kind,omitempty"`
	UUID  string `json:"uuid,omitempty"`
	Key   string `json:"key,omitempty"`
	Value string `json:"value,omitempty"`
}

type mView map[string]map[string]string

type mDB struct {
	Version  uint  `json:"version,omitempty"`
	Snapshot mView `json:"snapshot,omitempty"`
	Log      []mTx `json:"log,omitempty"`
}

func mReplay(log []mTx) (mView, error) {
	v := mView{}
	for i, tx := range log {
		if err := v.apply(tx); err != nil {
			return nil, fmt.Errorf("record %d: %w", i, err)
		}
	}
	return v, nil
}

func (v mView) apply(tx mTx) error {
	e, ok := v[tx.UUID]
	switch tx.Kind {
	case "add":
		if ok {
			return fmt.Errorf("second add of %s", tx.UUID)
		}
		v[tx.UUID] = map[string]string{}
	case "del":
		if !ok {
			return fmt.Errorf("delete of absent %s", tx.UUID)
		}
		delete(v, tx.UUID)
	case "setk":
		if !ok {
			return fmt.Errorf("set on absent %s", tx.UUID)
		}
		e[tx.Key] = tx.Value
	case "delk":
		if !ok {
			return fmt.Errorf("delete key on absent %s", tx.UUID)
		}
		delete(e, tx.Key)
	default:
		return fmt.Errorf("unknown kind %q", tx.Kind)
	}
	return nil
}

func (v mView) clone() mView {
	o := mView{}
	for k, e := range v {
		m := map[string]string{}
		for a, b := range e {
			m[a] = b
		}
		o[k] = m
	}
	return o
}

func viewsEqual(a, b mView) bool {
	if len(a) != len(b) {
		return false
	}
	for k, e := range a {
		f, ok := b[k]
		if !ok || !mapsEqual(e, f) {
			return false
		}
	}
	return true
}

func mapsEqual(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || v != w {
			return false
		}
	}
	return true
}

func logsEqual(a, b []mTx) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func viewDiff(want, got mView) string {
	var b strings.Builder
	var ks []string
	for k := range want {
		ks = append(ks, k)
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		w, ok1 := want[k]
		g, ok2 := got[k]
		switch {
		case !ok1:
			fmt.Fprintf(&b, "unexpected entry %s %q; ", k, g)
		case !ok2:
			fmt.Fprintf(&b, "missing entry %s %q; ", k, w)
		case !mapsEqual(w, g):
			fmt.Fprintf(&b, "entry %s: want %q got %q; ", k, w, g)
		}
		if b.Len() > 1500 {
			break
		}
	}
	return b.String()
}

func parseDB(pt []byte) (*mDB, error) {
	db := &mDB{}
	if err := json.Unmarshal(pt, db); err != nil {
		return nil, err
	}
	return db, nil
}

// nameOf maps names to uuids of a view.
func (v mView) byName() map[string]string {
	m := map[string]string{}
	for u, e := range v {
		m[e["name"]] = u
	}
	return m
}

func (db *mDB) encode() []byte {
	b, err := json.Marshal(db)
	if err != nil {
		panic(err)
	}
	return b
}
