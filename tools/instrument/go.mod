module instrument

go 1.20
