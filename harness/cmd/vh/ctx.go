package main

import "context"

var ctx = context.Background()
