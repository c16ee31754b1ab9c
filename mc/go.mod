// The real module file is made by /verif/check.sh from /repo/go.mod.
module mc

go 1.25
