module verif.local/ctl

go 1.22
