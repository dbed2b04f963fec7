module verif.local/rewrite

go 1.21
