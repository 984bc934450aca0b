module github.com/nlpodyssey/spago/verifmc

go 1.22

require github.com/nlpodyssey/spago v0.0.0

require github.com/google/flatbuffers v23.5.26+incompatible // indirect

replace github.com/nlpodyssey/spago => /repo
