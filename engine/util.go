package main

import "fmt"

func sprint(a interface{}) string { return fmt.Sprint(a) }
