module verif/harness

go 1.25

require (
	github.com/BTBurke/monny v0.0.0
	github.com/anishathalye/porcupine v1.3.1
	github.com/go-logfmt/logfmt v0.5.0
	github.com/golang/protobuf v1.3.2
	github.com/stvp/rollbar v0.5.1
	golang.org/x/net v0.0.0-20191126235420-ef20fe5d7933
	google.golang.org/grpc v1.25.1
)

require (
	github.com/cenkalti/backoff v2.2.1+incompatible // indirect
	github.com/go-yaml/yaml v2.1.0+incompatible // indirect
	github.com/spf13/pflag v1.0.5 // indirect
	golang.org/x/sys v0.0.0-20190215142949-d0b11bdaac8a // indirect
	golang.org/x/text v0.3.0 // indirect
	google.golang.org/genproto v0.0.0-20190819201941-24fa4b261c55 // indirect
)

replace github.com/BTBurke/monny => /repo
