F += [
("C14","1b1cee8","each load of an insert without attributes used up a handle, so that the next handle drifted with every cycle"),
("C14","5fc720e","normalising added missing UCSs in hash order, so that equal drawings got different handles"),
("C19","5ff419c","the extended data of blocks was written after ENDBLK and never read"),
("C14","a46c8bf","before R13 blocks got a new handle with every load although ENDBLK carries it"),
("C14","02fcc15","each load of a drawing with a multiline added another copy of its style"),
("C15","5495923","items without a handle, and items added after loading, got handles that others in the loaded file already use"),
("C17","e970aa5","text, dimension and multiline styles named by the entities of a block were not added with the block"),
("C17","fed1f3f","normalising did not add the text style, dimension style and line type the header names"),
("C17","7a0e03e","the text styles of RTEXT entities and of the attributes of an insert were not added with them"),
("C17","b1e9ca1","normalising twice changed the view port that the first normalisation had added"),
("C15","94f9f65","after loading a file with next handle 0 the first item added got the empty handle"),
("C20","0240177","thumbnails with a palette of implied size were read with the palette as pixels"),
("C20","cfec920","a thumbnail with a negative or huge header or palette size panicked or was read from a wrong place"),
("C20","a0996b8","thumbnails with colour masks behind a 40 byte header were read with the masks as pixels"),
("C20","75cfd8e","the transparency of grey thumbnails was lost"),
("C20","ac9b594","a thumbnail without pixels gave a file that cannot be loaded"),
("C21","10b52fe","with a scale factor, colours, flags, number modes, angles and bulges of DXB files were scaled too, and a truncated scale factor was ignored"),
("C21","1f43427","the entities of a drawing with blocks were left out of DXB files, and the entities of blocks were written without layer and colour"),
("C21","eadc400","the bulges and widths of polylines were left out of DXB files"),
("C21","aa2b233","layer names beyond Latin-1 were cut to other characters, or ended early, in DXB files"),
("C22","b1abb90","loading DXB failed when the reader was interrupted"),
("C22","9447000","saving to a file reported success when the last block could not be written"),
("C23","ebc3c57","a damaged (empty) group code ended the file silently, so that everything after it was dropped or reported at a wrong position"),
("C23","9498a44","errors in binary files were reported before the damaged pair"),
("C23","7f59e88","errors in DXB files were reported 17 bytes too early"),
("C01","c2cb96e","a section that ends inside a block made loading loop for ever"),
("C01","a01595d","groups nested thousands deep overflowed the stack"),
("C01","97ca361","a layer colour of -32768 panicked"),
("C23","7c47b76","handles of more than 16 digits were cut to other handles instead of rejected"),
("C01","5b3872c","a few bytes of thumbnail could claim 512 MB"),
("C02","56c8277","rotated dimensions with another type number became another kind of dimension, or were lost, when saved before R13"),
("C02","b0963d5","an extension group left open swallowed the records after it, and the saved drawing did not load"),
("C02","aa90d15","extension data of a block that holds XDATA codes made the saved drawing unloadable"),
("C24","14b7173","the maintenance release version of a proxy entity was kept in the wrong bits, and its format version could not be replaced"),
("C03","3e1ddc8","the column count of an MTEXT was replaced by the number of column heights on reading"),
]
