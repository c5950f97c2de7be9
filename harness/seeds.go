package main

import (
	"embed"
	"path"
)

//go:embed seeds
var seedFS embed.FS

type seedFile struct {
	name string
	data []byte
}

var seedFiles []seedFile

func init() {
	es, err := seedFS.ReadDir("seeds")
	fatal(err)
	for _, e := range es {
		if path.Ext(e.Name()) != ".svg" {
			continue
		}
		b, err := seedFS.ReadFile("seeds/" + e.Name())
		fatal(err)
		seedFiles = append(seedFiles, seedFile{e.Name(), b})
	}
}
