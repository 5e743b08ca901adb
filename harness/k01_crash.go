// package-dir: .
package main

import (
	"os"
	"io"
	"strings"

	"github.com/aarondl/bpass/blobformat"
	"github.com/aarondl/bpass/txlogs"
	"github.com/aarondl/bpass/verifv"
)

// Saving.
func Harness_K01_save() {
	verifv.Bound("a file that exists (private, readable by others or read-only) or is new, a changed value of any letters, saved once or twice; the program or the machine stops, or an operation fails, at any file operation of the last save, with 0, 1, 17, half, all but one or all bytes written; after a power loss any prefix of the unsynced directory operations and none, half or all of unsynced data is there")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	newUI()
	h := &hist{t: syncT0}
	h.entry("e", "some/entry", "k", "old")
	var versions [][]byte
	if verifv.Choose("exists", 2) == 1 {
		versions = append(versions, sealed(h.log, newRing("pw")))
		verifv.PutFile(testFile, append([]byte(nil), versions[0]...))
		if m := verifv.Choose("mode", 3); m > 0 {
			verifv.Assert(verifv.Os_Chmod(testFile, []os.FileMode{0644, 0400}[m-1]) == nil, "chmod failed")
		}
	} else {
		versions = append(versions, nil)
	}
	mode := verifv.FileMode(testFile)
	u := &uiContext{out: verifv.Os_Stdout, filename: testFile, shortFilename: "b"}
	verifv.Assert(setupLineEditor(u) == nil, "the terminal could not be set up")
	typing("pw", "pw")
	verifv.Assert(u.loadBlob() == nil, "the file cannot be opened")
	if versions[0] == nil {
		u.store.Log = h.log
	}
	if verifv.Choose("saved before", 2) == 1 {
		verifv.Assert(u.store.Set("e", "k", "between") == nil, "set failed")
		verifv.Assert(u.saveBlob() == nil, "the file cannot be saved")
		verifv.Assert(versions[0] == nil || verifv.FileMode(testFile) == mode, "saving changes the file's permissions")
		v, _ := verifv.GetFile(testFile)
		versions = append(versions, append([]byte(nil), v...))
	}
	v := verifv.String("value", 2)
	verifv.Assume(verifv.And(v[0] >= 'a', v[0] <= 'z', v[1] >= 'A', v[1] <= 'Z'))
	verifv.Assert(u.store.Set("e", "k", v) == nil, "set failed")
	want := cpTxs(u.store.Log)
	mishap(10, 700)
	var err error
	end := verifv.Catch(func() { err = u.saveBlob() })
	noMishap()
	verifv.Assert(end == "" || end == "crash", "saving ended with "+end)
	data, there := verifv.GetFile(testFile)
	whole := func(what string, data []byte) {
		verifv.Assert(vSameLog(unsealed(what, data, keyring{pass: "pw"}), want), what+": a finished save lacks something")
	}
	if end == "crash" {
		machine := verifv.Choose("power loss", 2) == 1
		data, there = verifv.AfterCrash(testFile, machine)
		complete := false
		for _, v := range versions {
			if v == nil {
				complete = complete || !there
			} else if there && verifv.EqB(data, v) {
				complete = true
			}
		}
		if !complete {
			verifv.Assert(there, "crash: the file is lost")
			whole("crash", data)
			verifv.Reach("new after a crash")
		} else {
			verifv.Reach("old after a crash")
		}
		return
	}
	if err != nil {
		complete := false
		for _, v := range versions[len(versions)-1:] {
			if v == nil {
				complete = !there
			} else if there && verifv.EqB(data, v) {
				complete = true
			}
		}
		if !complete {
			verifv.Assert(there, "failed save: the file is lost")
			whole("failed save", data)
		}
		verifv.Assert(len(verifv.Files()) <= 2, "a failed save leaves files about")
		verifv.Reach("failed")
		// It can be tried again.
		verifv.Assert(u.saveBlob() == nil, "after a failed save the file cannot be saved")
		data, there = verifv.GetFile(testFile)
	}
	verifv.Assert(there, "after a save there is no file")
	whole("save", data)
	if versions[0] != nil {
		verifv.Assert(verifv.FileMode(testFile)&^(mode|0600) == 0, "saving lets others read the file")
	} else {
		verifv.Assert(verifv.FileMode(testFile)&0077 == 0, "a new file can be read by others")
	}
	verifv.Assert(len(verifv.Files()) == 1, "a save leaves files about")
	// A power loss after it.
	data, there = verifv.AfterCrash(testFile, true)
	complete := false
	for _, v := range versions {
		if v == nil {
			complete = complete || !there
		} else if there && verifv.EqB(data, v) {
			complete = true
		}
	}
	if !complete {
		verifv.Assert(there, "power loss: the file is lost")
		whole("power loss", data)
	}
	verifv.Reach("saved")
}

// A whole session, with the file and a copy it is synchronised to.
func Harness_K01_session() {
	verifv.Bound("a whole session on a file with a file remote that has an edit of its own: opening and syncing, a change, syncing again and saving; the program or the machine stops, or an operation fails, at any file operation (up to 60), with 0, 1, 17, half, all but one or all bytes written")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	h := &hist{t: syncT0}
	h.entry("e", "some/entry", "k", "old")
	h.entry("a", "sync/a", blobformat.KeySync, "true", blobformat.KeyURL, "file:///r/a")
	newUI()
	ring := newRing("pw")
	local := sealed(h.log, ring)
	rem := append(cpTxs(h.log), txlogs.Tx{Time: syncT0 + 500, Kind: txlogs.TxSetKey, UUID: "e", Key: "r", Value: "theirs"})
	remote := sealed(rem, ring)
	verifv.PutFile(testFile, append([]byte(nil), local...))
	verifv.PutDir("/r")
	verifv.PutFile("/r/a", append([]byte(nil), remote...))
	mishap(verifv.Pick(40, 60), 900)
	k := 0
	changed := false
	ask(40, func(n int, prompt, said string) (string, error) {
		if has(prompt, "passphrase: ") {
			return "pw", nil
		}
		if k++; k == 1 {
			changed = true
			return "set some/entry k mine", nil
		}
		return "", io.EOF
	})
	end := run(map[string]string{"no-color": "true"}, "")
	step := verifv.FSStep
	at := verifv.FSCrash
	if at < 0 {
		at = verifv.FSFault
	}
	noMishap()
	verifv.Assert(!strings.HasPrefix(end, "panic"), "the program panicked: "+end)
	// good asserts that the file is a history with all of part.
	good := func(what, path string, machine bool, part []txlogs.Tx) []txlogs.Tx {
		data, there := verifv.GetFile(path)
		if end == "crash" {
			data, there = verifv.AfterCrash(path, machine)
		}
		verifv.Assert(there, what+" is lost")
		log := unsealed(what, data, keyring{pass: "pw"})
		verifv.Assert(holdsAll(log, part, ""), what+" lost something it had")
		_, ok := refState(log)
		verifv.Assert(ok, what+" does not apply")
		return log
	}
	machine := end == "crash" && verifv.Choose("power loss", 2) == 1
	if verifv.Choose("which", 2) == 0 {
		log := good("the file", testFile, machine, h.log)
		if end == "" {
			verifv.Assert(holdsAll(log, rem, ""), "after a session the file lacks what came from the remote")
			verifv.Assert(changed && log[len(log)-1].Value == "mine", "after a session the file lacks the change")
		}
	} else {
		log := good("the remote copy", "/r/a", machine, rem)
		if end == "" && at >= step {
			verifv.Assert(changed && log[len(log)-1].Value == "mine", "after a session the remote lacks the change")
			verifv.Reach("no mishap")
		}
	}
	switch end {
	case "crash":
		verifv.Reach("crash")
	case "":
		verifv.Reach("went on")
	default:
		verifv.Reach("failed")
	}
}
