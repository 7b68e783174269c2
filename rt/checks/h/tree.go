package h

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Tree describes everything below a directory: kinds, sizes, contents, link targets.
func Tree(root string) map[string]string {
	out := map[string]string{}
	filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		rel, _ := filepath.Rel(root, p)
		if err != nil {
			out[rel] = "unreadable"
			return nil
		}
		fi, err := os.Lstat(p)
		if err != nil {
			out[rel] = "gone"
			return nil
		}
		s := fmt.Sprint(fi.Mode())
		switch {
		case fi.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			s += " " + string(b)
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			s += " -> " + l
		}
		out[rel] = s
		return nil
	})
	return out
}

// Diff lists the differences of two trees.
func Diff(a, b map[string]string) []string {
	var out []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			out = append(out, "-"+k)
		} else if v != w {
			out = append(out, "~"+k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			out = append(out, "+"+k)
		}
	}
	sort.Strings(out)
	return out
}

// Lexical resolves a name against a directory without following links. climbs reports that
// the name leads out of the directory on the way.
func Lexical(name string) (rel string, climbs bool) {
	var parts []string
	for _, p := range strings.Split(name, "/") {
		switch p {
		case "", ".":
		case "..":
			if len(parts) == 0 {
				climbs = true
			} else {
				parts = parts[:len(parts)-1]
			}
		default:
			parts = append(parts, p)
		}
	}
	rel = strings.Join(parts, "/")
	if rel == "" {
		rel = "."
	}
	return
}
