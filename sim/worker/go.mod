module verif.local/worker

go 1.21
