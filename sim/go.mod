module simverif

go 1.23

require (
	github.com/BTBurke/monny v0.0.0
	github.com/golang/protobuf v1.3.2
	google.golang.org/grpc v1.25.1
)

require google.golang.org/genproto v0.0.0-20190819201941-24fa4b261c55 // indirect

replace github.com/BTBurke/monny => ../build/monny

replace simverif => ./
