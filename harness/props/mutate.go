package props

import (
	"sort"

	"pgregory.net/rapid"
)

// mutateTree changes a decoded JSON value in a few places: members removed, values replaced, lists grown, shrunk or
// reordered. It never changes v itself.
func mutateTree(t *rapid.T, v any, p int) any {
	if pct(t, p, "mutHere") {
		switch rapid.IntRange(0, 5).Draw(t, "mutKind") {
		case 0:
			return genScalar(t)
		case 1:
			return genVal(t, 1, defaultJ)
		case 2:
			return []any{v}
		case 3:
			return nil
		case 4:
			if l, ok := v.([]any); ok {
				if len(l) > 1 && rapid.Bool().Draw(t, "rev") {
					out := make([]any, len(l))
					for i := range l {
						out[len(l)-1-i] = l[i]
					}
					return out
				}
				return append(append([]any{}, l...), l...)
			}
		case 5:
			if l, ok := v.([]any); ok && len(l) > 0 {
				return append([]any{}, l[:rapid.IntRange(0, len(l)-1).Draw(t, "cut")]...)
			}
			if m, ok := v.(map[string]any); ok {
				out := map[string]any{}
				for _, k := range sortedKeys(m) {
					if !pct(t, 40, "drop") {
						out[k] = m[k]
					}
				}
				return out
			}
		}
	}
	switch x := v.(type) {
	case map[string]any:
		out := map[string]any{}
		for _, k := range sortedKeys(x) {
			out[k] = mutateTree(t, x[k], p)
		}
		return out
	case []any:
		out := make([]any, 0, len(x))
		for _, e := range x {
			out = append(out, mutateTree(t, e, p))
		}
		return out
	}
	return v
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
