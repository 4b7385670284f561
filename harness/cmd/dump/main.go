// dump writes (schema, instance, verdict) triples of the oracle, to be
// cross-checked against another implementation (tools/crosscheck.py). It does
// not run the code under test.
package main

import (
	"encoding/json"
	"os"

	"verif/core"
	"verif/model"
)

func main() {
	enc := json.NewEncoder(os.Stdout)
	for i := 0; i < 6000; i++ {
		r := core.NewRng(uint64(7), "dump", i)
		var doc model.M
		switch i % 3 {
		case 0:
			doc = model.GenSchema(r, model.SOpts{Depth: 1 + i%4, Stray: true})
		case 1:
			doc = model.GenRefDoc(r, model.SOpts{Depth: 1 + i%3}, false)
		case 2:
			doc = model.GenSchema(r, model.SOpts{Depth: 1, NoComb: true})
		}
		d := model.ReadDoc(doc)
		for j := 0; j < 8; j++ {
			v := model.GenValue(r, d.Spec, d.Env, 4)
			enc.Encode(map[string]interface{}{"s": doc, "v": v, "r": model.Eval(d.Spec, v, d.Env).String()})
		}
	}
}
