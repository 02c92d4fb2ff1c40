module github.com/dvsekhvalnov/jose2go

go 1.18
