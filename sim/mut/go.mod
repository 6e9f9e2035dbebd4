module verif.local/mut

go 1.21
