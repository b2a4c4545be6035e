package props

import (
	"fmt"
	"path"
	"strings"

	"verifsim/kern"
	"verifsim/model"
	"verifsim/rng"
)

// Things that are in the destination before a well-formed archive is
// extracted: an older version of its files, files of others, or something that
// is in the way.

// genOccupied makes objects for the destination of the entries.
func genOccupied(r *rng.R, list []model.Entry) []pre {
	var out []pre
	for n := r.Range(1, 4); n > 0; n-- {
		p := pre{}
		kind := "file"
		if len(list) > 0 && r.P(5, 6) {
			e := rng.Of(r, list)
			p.Path = model.Clean(e.Name)
			switch e.Mode & model.Type {
			case model.Dir:
				kind = "dir"
			case model.Lnk:
				kind = "link"
			case model.Fifo:
				kind = "fifo"
			}
			switch r.N(6) {
			case 0:
				if d := path.Dir(p.Path); d != "." {
					p.Path, kind = d, "dir"
				}
			case 1:
				p.Path += "/" + rng.Pick(r, "inside", "a", "b")
				kind = "file"
			case 2:
				p.Path = path.Join(path.Dir(p.Path), rng.Pick(r, "beside", "a", "b"))
			}
		} else {
			p.Path = rng.Pick(r, "a", "b", "other", "usr/other", "etc/a/b")
		}
		p.Kind = kind
		if r.P(1, 2) {
			p.Kind = rng.Pick(r, "file", "dir", "link", "hard", "fifo")
		}
		switch p.Kind {
		case "link":
			p.Target = rng.Pick(r, "nowhere", "a", "b", "other", ".", "/etc/secret", "/etc/dir", "loop")
		case "hard":
			p.Target = "/etc/secret"
			for _, q := range out {
				if q.Kind == "file" && r.Bool() {
					p.Target = q.Path
				}
			}
		}
		out = append(out, p)
		if !validOccupied(out, list) {
			out = out[:len(out)-1]
		}
	}
	return out
}

// validOccupied keeps symbolic links off the way to an entry or another
// object: what lies behind them is a question of C05.
func validOccupied(list []pre, entries []model.Entry) bool {
	under := func(p, q string) bool { return strings.HasPrefix(p, q+"/") }
	for i, p := range list {
		if p.Path == "" || p.Path[0] == '/' || path.Clean("/"+p.Path) != "/"+p.Path || p.Path == "bystander" || len(p.Path) > 400 {
			return false
		}
		switch p.Kind {
		case "file", "dir", "fifo":
			if p.Target != "" {
				return false
			}
		case "link":
			if p.Target == "" {
				return false
			}
			for _, e := range entries {
				if under(model.Clean(e.Name), p.Path) {
					return false
				}
			}
		case "hard":
			ok := p.Target == "/etc/secret"
			for _, q := range list[:i] {
				ok = ok || q.Kind == "file" && q.Path == p.Target
			}
			if !ok {
				return false
			}
		default:
			return false
		}
		for _, q := range list[:i] {
			if q.Path == p.Path || under(q.Path, p.Path) || under(p.Path, q.Path) {
				return false
			}
		}
	}
	return true
}

// occupied works out what a successful extraction over the objects leaves, and
// whether anything is in the way of an entry, so that an error is as good.
func occupied(list []pre, entries []model.Entry) (want map[string]kern.Node, grp map[string]int, clash bool) {
	want, grp = wantTree(entries)
	kindOf := map[string]string{"file": "file", "hard": "file", "dir": "dir", "link": "link", "fifo": "fifo"}
	for i, p := range list {
		for q := path.Dir(p.Path); q != "."; q = path.Dir(q) {
			if w, ok := want[q]; ok && w.Kind != "dir" {
				clash = true
			} else if !ok {
				want[q] = kern.Node{Kind: "dir"}
			}
		}
		if w, ok := want[p.Path]; ok {
			if w.Kind != kindOf[p.Kind] {
				clash = true
			}
			continue
		}
		n := kern.Node{Kind: kindOf[p.Kind]}
		switch p.Kind {
		case "file":
			n.Data = "already here: " + p.Path
			grp[p.Path] = -1 - i
		case "hard":
			n.Data = "outside secret"
			grp[p.Path] = -1000
			for j, q := range list[:i] {
				if q.Path == p.Target {
					n.Data = "already here: " + q.Path
					grp[p.Path] = -1 - j
				}
			}
		case "link":
			n.Target = p.Target
		}
		want[p.Path] = n
	}
	return
}

// checkOccupied compares the destination with the archive and what was there.
func (sc *exScenario) checkOccupied(c *Ctx, k *kern.Kernel, when string) {
	real := destReal[sc.Dest]
	skip := map[string]bool{}
	if sc.Dest == ".." {
		skip["/d/w"], skip["/d/x"] = true, true
	}
	want, grp, _ := occupied(sc.Pre, sc.entries())
	got := k.Snapshot(real, func(abs string) bool { return skip[abs] })
	if d := diffWant(got, want, grp); d != "" {
		c.Fail("wrong-tree", "%s: %s (there were: %s)", when, d, fmt.Sprint(sc.Pre))
	}
}
