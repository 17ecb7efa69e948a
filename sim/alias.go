package main

import "github.com/gogama/flatgeobuf/flatgeobuf/flat"

type flatFeature = flat.Feature
