module rewrite

go 1.21
