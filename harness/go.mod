module vanflowverif

go 1.25.0

require (
	github.com/Azure/go-amqp v1.0.4
	github.com/anishathalye/porcupine v1.3.1
	github.com/c-kruse/vanflow v0.0.0
	github.com/cenkalti/backoff/v4 v4.2.1
	github.com/moby/spdystream v0.2.0
	pgregory.net/rapid v1.3.0
)

replace github.com/c-kruse/vanflow => /repo
