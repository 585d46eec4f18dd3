module a.local/detrand

go 1.25
