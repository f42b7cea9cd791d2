module verif

go 1.23
