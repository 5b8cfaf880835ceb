module vharness

go 1.20

require github.com/twuillemin/modes v0.0.0

replace github.com/twuillemin/modes => /repo
