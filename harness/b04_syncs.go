// package-dir: .
package main

import (
	"github.com/aarondl/bpass/blobformat"
	"github.com/aarondl/bpass/txlogs"
	"github.com/aarondl/bpass/verifv"
)

func Harness_B04_syncs() {
	verifv.Bound("two entries: the sync field any 0..5 bytes or absent, a name or none, thirteen kinds of url; a valid sync entry beside it; one deleted")
	b := blobformat.Blobs{DB: &txlogs.DB{}}
	add := func(name, url string) string {
		id, _ := b.DB.Add()
		if name != "" {
			b.DB.Set(id, blobformat.KeyName, name)
		}
		b.DB.Set(id, blobformat.KeyURL, url)
		return id
	}
	urls := []string{"scp://u@h:22/p", "file:///x", "SCP://u@h/p", "File:///x", "", "/x", "http://h/p", "%zz", "scp:/p", "scps://h/p", "://", "ftp://h", "file"}
	valid := []bool{true, true, true, true, false, false, false, false, true, false, false, false, false}
	which := verifv.Choose("url", len(urls))
	named := verifv.Choose("named", 2) == 1
	name := ""
	if named {
		name = []string{"sync/x", "plain", "user/x"}[verifv.Choose("name", 3)]
	}
	a := add(name, urls[which])
	val := ""
	if verifv.Choose("has sync", 2) == 1 {
		val = verifv.String("sync", verifv.Choose("len", 6))
		b.DB.Set(a, blobformat.KeySync, val)
	}
	c := add("sync/c", "scp://u@h:22/p")
	b.DB.Set(c, blobformat.KeySync, "true")
	d := add("sync/d", "file:///y")
	b.DB.Set(d, blobformat.KeySync, "true")
	b.DB.Delete(d)
	verifv.Assert(b.UpdateSnapshot() == nil, "refreshing failed")
	log := len(b.Log)
	ids, err := collectSyncs(b)
	verifv.Assert(err == nil, "listing the sync entries failed")
	want := verifv.And(verifv.EqS(val, "true"), named, valid[which])
	na, nc := 0, 0
	for _, id := range ids {
		switch id {
		case a:
			na++
		case c:
			nc++
		default:
			verifv.Assert(false, "an entry is synced that is not there")
		}
	}
	verifv.Assert(nc == 1, "a valid sync entry is missing or listed twice")
	verifv.Assert(na <= 1 && verifv.Iff(na == 1, want), "an entry that is not a valid sync entry is synced, or a valid one is not")
	verifv.Assert(len(b.Log) == log, "listing changed the history")
	verifv.Possible("synced", want)
	verifv.Possible("not synced", verifv.Not(want))
}
