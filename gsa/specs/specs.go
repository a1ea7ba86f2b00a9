// Package specs holds the reference definitions of the properties
package specs

import "embed"

//go:embed *.txt
var FS embed.FS
