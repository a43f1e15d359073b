# property -> why it is not claimed
NA.update({})
