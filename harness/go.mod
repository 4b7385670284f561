module verif

go 1.24

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/lestrrat-go/jsschema v0.0.0-20181205002244-5c81c58ffcc3
	github.com/lestrrat-go/jsval v0.0.0
)

require (
	github.com/lestrrat-go/jspointer v0.0.0-20181205001929-82fadba7561c // indirect
	github.com/lestrrat-go/jsref v0.0.0-20181205001954-1b590508f37d // indirect
	github.com/lestrrat-go/pdebug v0.0.0-20180220043849-39f9a71bcabe // indirect
	github.com/lestrrat-go/structinfo v0.0.0-20190212233437-acd51874663b // indirect
	github.com/pkg/errors v0.8.1 // indirect
	golang.org/x/net v0.17.0 // indirect
)

replace github.com/lestrrat-go/jsval => /repo
