module verif/dst

go 1.26
