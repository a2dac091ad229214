module vsim

go 1.23

require (
	github.com/Azure/go-amqp v1.0.4
	github.com/anishathalye/porcupine v1.3.1
	github.com/c-kruse/vanflow v0.0.0
	github.com/cenkalti/backoff/v4 v4.2.1
)

require (
	github.com/felixge/httpsnoop v1.0.3 // indirect
	github.com/gorilla/handlers v1.5.2 // indirect
)

replace github.com/c-kruse/vanflow => /repo

replace github.com/Azure/go-amqp => ../.build/go-amqp
