module instrument

go 1.24
