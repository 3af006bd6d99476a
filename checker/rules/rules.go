// Package rules holds one decision procedure per property.
package rules

import "verif/checker/core"

// All maps a property to its check.
var All = map[string]func(*core.Ctx){}

func register(id string, f func(*core.Ctx)) { All[id] = f }
