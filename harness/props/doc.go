// Package props holds the generators and checks of every property.
package props

import (
	_ "github.com/GannettDigital/jstransform/generate"
	_ "github.com/GannettDigital/jstransform/jsonschema"
	_ "github.com/GannettDigital/jstransform/transform"
	_ "pgregory.net/rapid"
)
