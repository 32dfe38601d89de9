module verifharness

go 1.25
