module verif.local/selftest

go 1.20
