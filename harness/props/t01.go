package props

import "verif/harness/pbt"

func init() {
	pbt.Register(&pbt.Property{
		ID: "T01",
		Subs: []*pbt.Sub{
			pbt.NewSub("model", "generated schema (objects, arrays, scalars, free-form objects; transforms, defaults, nullable types) with paths drawn from the generated input, compared with the reference model; non-trivial: non-empty output and at least two different resolution routes", 60000, 600000, genJ(defaultJ), checkJModel),
		},
	})
}
