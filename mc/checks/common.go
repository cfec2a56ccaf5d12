// Package checks holds one exhaustive exploration per property.
package checks

import (
	_ "github.com/trimmer-io/go-xmp/models"
	_ "github.com/trimmer-io/go-xmp/models/digikam"
)

// repoDir is the repository under test.
func repoDir() string { return "/repo" }
