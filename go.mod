module vh

go 1.24
