module verifload

go 1.27

require github.com/Breeze0806/gobinlog v0.0.0

require (
	github.com/Breeze0806/go v0.0.0-20210513031655-61a934305111 // indirect
	github.com/Breeze0806/mysql v1.4.2 // indirect
)

replace github.com/Breeze0806/gobinlog => /repo

replace github.com/Breeze0806/go => ./stub
