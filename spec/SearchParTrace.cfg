SPECIFICATION ParSpec
