module rewrite

go 1.27
