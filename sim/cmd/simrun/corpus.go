package main

import (
	"embed"
)

// Real maps (the ones the repository's own tests use), as an addition to generated ones.
//
//go:embed corpus/*.osu
var corpusFS embed.FS

var corpus = map[string][]byte{}

func init() {
	for _, n := range []string{"saveme", "umbrella", "umbrella16"} {
		b, err := corpusFS.ReadFile("corpus/" + n + ".osu")
		if err != nil {
			panic(err)
		}
		corpus[n] = b
	}
}
