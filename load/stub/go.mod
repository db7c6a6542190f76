module github.com/Breeze0806/go

go 1.11
