// for machines around the types of model/vm.yaml
#pragma once
#include "machine.h"
#include "vm/vm.h"
#include "podio/Frame.h"
#include "podio/LinkNavigator.h"
