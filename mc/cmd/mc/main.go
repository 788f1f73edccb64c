// Command mc runs the model checks of go-vimlparser.
package main

import "mc/eng"

var checks []*eng.Check

func add(c *eng.Check) { checks = append(checks, c) }

func main() { eng.Main(checks) }
