module github.com/kilic/bls12-381

go 1.18
