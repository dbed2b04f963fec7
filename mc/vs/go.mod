module verif.local/vs

go 1.18
