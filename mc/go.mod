module verifmc

go 1.23

require github.com/trimmer-io/go-xmp v0.0.0

replace github.com/trimmer-io/go-xmp => /repo
