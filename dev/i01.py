M='matrixmarket.hh'
CHK='''          if(row>=rows.size() || data.index>=cols)
            DUNE_THROW(MatrixMarketFormatError, "Entry " << i+1 << " is outside of the matrix!");
'''
T=[
('norow','I01','alarm',[(M,"row>=rows.size() || data.index>=cols","data.index>=cols")]),
('offbyone','I01','alarm',[(M,"row>=rows.size() || data.index>=cols","row>rows.size() || data.index>=cols")]),
('colwrong','I01','alarm',[(M,"data.index>=cols)","data.index>=rows.size())")]),
('nostream','I01','alarm',[(M,"          if(!file)\n            DUNE_THROW(MatrixMarketFormatError, \"Could not read entry \" << i+1","          if(false)\n            DUNE_THROW(MatrixMarketFormatError, \"Could not read entry \" << i+1")]),
('square','I01','alarm',[(M,"mmHeader.structure!=general && rows.size()!=cols","false")]),
('skewsign','I01','alarm',[(M,"data_sym.number = -data.number;","data_sym.number = data.number;")]),
('hermconj','I01','alarm',[(M,"data_sym.number = conj(data.number);","data_sym.number = data.number;")]),
('diagtwice','I01','alarm',[(M,"          if(row!=data.index)\n            symmetryFixup","          symmetryFixup")]),
('symlower','I01','alarm',[(M,"          if(row!=data.index)\n","          if(row>data.index)\n")]),
('noshift','I01','alarm',[(M,"          --row; // Index was 1 based.","")]),
('noshiftcol','I01','alarm',[(M,"      /* MatrixMarket indices are one based. Decrement for C++ */\n      --data.index;\n      return is>>data.number;","      return is>>data.number;")]),
('noshiftcplx','I01','alarm',[(M,"      --data.index;\n      // real","      // real")]),
('cplxswap','I01','alarm',[(M,"data.number = {real.number, imag.number};","data.number = {imag.number, real.number};")]),
('patdiv','I01','alarm',[(M,"            iter.insert(siter->index/bcols);","            iter.insert(siter->index/brows);")]),
('patrows','I01','alarm',[(M,"        for(std::size_t brow=iter.index()*brows, browend=iter.index()*brows+brows;","        for(std::size_t brow=iter.index()*brows, browend=iter.index()*brows+bcols;")]),
('valmod','I01','alarm',[(M,"[siter->index/bcols][brow%brows][siter->index%bcols]","[siter->index/bcols][brow%brows][siter->index%brows]")]),
('valmod2','I01','alarm',[(M,"[siter->index/bcols][brow%brows][siter->index%bcols]","[siter->index/bcols][brow%bcols][siter->index%bcols]")]),
('entries','I01','alarm',[(M,"for(std::size_t i = 0; i < entries; ++i) {","for(std::size_t i = 0; i < entries && !file.eof(); ++i) {")]),
('entries1','I01','alarm',[(M,"for(std::size_t i = 0; i < entries; ++i) {","for(std::size_t i = 1; i < entries; ++i) {")]),
('hdrcheck','I01','alarm',[(M,"    istr >>entries;\n\n    if(!istr)","    istr >>entries;\n\n    if(istr.eof())")]),
('hdrvec','I01','alarm',[(M,'    if(!istr)\n      DUNE_THROW(MatrixMarketFormatError, "Could not read the dimensions!");\n','')]),
('blkdim','I01','alarm',[(M,"if(rows%brows!=0 || cols%bcols!=0)","if(rows%brows!=0)")]),
('blkswap','I01','alarm',[(M,"std::size_t blockrows=rows/brows;","std::size_t blockrows=rows/bcols;")]),
('vecblk','I01','alarm',[(M,"        if(size*blocksize!=rows)","        if(size*blocksize>rows)")]),
('veccols','I01','alarm',[(M,"    if(cols!=Simd::lanes<field_type>()) {","    if(cols<Simd::lanes<field_type>()) {")]),
('vectrunc','I01','alarm',[(M,"      if(!(istr>>val))\n","      istr>>val;\n      if(i==0 && !istr)\n")]),
('vecidx','I01','alarm',[(M,"vector[i/entries][i%entries]","vector[i/entries][(i+1)%entries]")]),
('pattern','I01','alarm',[(M,"    if(header.ctype==pattern)\n","    if(header.ctype==unknown_ctype)\n")]),
('ctype','I01','alarm',[(M,"    if((header.ctype==complex_type)!=is_complex<typename Matrix::field_type>::value)","    if(header.ctype==complex_type && !is_complex<typename Matrix::field_type>::value)")]),
('array','I01','alarm',[(M,"    if(header.type==array_type)\n      DUNE_THROW(Dune::NotImplemented, \"Array","    if(header.type==unknown_type)\n      DUNE_THROW(Dune::NotImplemented, \"Array")]),
('word-skew','I01','alarm',[(M,"mmHeader.structure=skew_symmetric;","mmHeader.structure=symmetric;")]),
('word-sym','I01','alarm',[(M,"        case 'y' :","        case 'm' :")]),
('word-int','I01','alarm',[(M,"mmHeader.ctype=integer_type;","mmHeader.ctype=complex_type;")]),
('word-general','I01','alarm',[(M,'buffer != "general"','buffer != "General"')]),
('word-out','I01','alarm',[(M,'<<" general"<<std::endl;','<<" symmetric"<<std::endl;',1)]),
('word-cplx','I01','alarm',[(M,'        return "complex";','        return "real";',2)]),
('out-dim','I01','alarm',[(M,'<<countNonZeros(matrix)<<std::endl;','<<matrix.nonzeroes()<<std::endl;')]),
('out-one','I01','alarm',[(M,"col.index()*MatrixMarketImpl::mm_multipliers<M>::cols+1, ostr","col.index()*MatrixMarketImpl::mm_multipliers<M>::rows+1, ostr")]),
('out-col','I01','alarm',[(M,"        std::size_t coli=colidx;\n","        std::size_t coli=rowidx;\n")]),
('out-int','I01','alarm',[(M,"        std::size_t coli=colidx;\n","        int coli=colidx;\n")]),
('out-vec','I01','alarm',[(M,"    return vector.size()*i;","    return vector.size();")]),
('out-cplx','I01','alarm',[(M,'<< entry.real() << " " << entry.imag()','<< entry.imag() << " " << entry.real()')]),
('nnzrow','I01','alarm',[(M,"    matrix.setSize(blockrows, blockcols, nnz);","    matrix.setSize(blockcols, blockrows, nnz);")]),
# behaviour preserved
('q-helper','I01','quiet',[(M,CHK,'''          if(outside(row, rows.size()) || outside(data.index, cols))
            DUNE_THROW(MatrixMarketFormatError, "Entry " << i+1 << " is outside of the matrix!");
'''),(M,"    template<typename T, typename A, typename D>\n    void readSparseEntries","    inline bool outside(std::size_t index, std::size_t size)\n    {\n      return !(index<size);\n    }\n\n    template<typename T, typename A, typename D>\n    void readSparseEntries")]),
('q-onebased','I01','quiet',[(M,'''          --row; // Index was 1 based.
          file>>data;
          if(!file)''','''          file>>data;
          row -= 1; // Index was 1 based.
          if(file.fail())''')]),
('q-range','I01','quiet',[(M,CHK,'''          const bool inside = row<rows.size() && data.index<cols;
          if(!inside)
            DUNE_THROW(MatrixMarketFormatError, "Entry " << i+1 << " is outside of the matrix!");
''')]),
('q-while','I01','quiet',[(M,"        for(std::size_t i = 0; i < entries; ++i) {\n          std::size_t row","        std::size_t i = 0;\n        while(i != entries) {\n          std::size_t row"),(M,"            symmetryFixup(row, data);\n","            symmetryFixup(row, data);\n          ++i;\n")]),
('q-ref','I01','quiet',[(M,"          rows[row].insert(data);\n","          auto& entriesOfRow = rows[row];\n          entriesOfRow.insert(data);\n")]),
('q-at','I01','quiet',[(M,"          rows[row].insert(data);\n","          rows.at(row).insert(data);\n")]),
('q-rangefor','I01','quiet',[(M,'''          typedef typename std::set<IndexData<D> >::const_iterator Siter;
          for(Siter siter=rows[brow].begin(), send=rows[brow].end();
              siter != send; ++siter, ++nnz)
            iter.insert(siter->index/bcols);
''','''          for(const auto& entry : rows[brow])
            iter.insert(entry.index/bcols);
'''),(M,"      int nnz=0;\n","")]),
('q-subrow','I01','quiet',[(M,'''        for(std::size_t brow=iter.index()*brows, browend=iter.index()*brows+brows;
            brow<browend; ++brow)
        {
          typedef''','''        for(std::size_t sub=0; sub<std::size_t(brows); ++sub)
        {
          const std::size_t brow = iter.index()*brows + sub;
          typedef''')]),
('q-setter','I01','quiet',[(M,'''            for (auto siter=rows[brow].begin(), send=rows[brow].end();
                siter != send; ++siter)
              (*iter)[siter->index/bcols][brow%brows][siter->index%bcols]=siter->number;
''','''            for (const auto& entry : rows[brow])
            {
              auto&& block = (*iter)[entry.index/bcols];
              block[brow%brows][entry.index%bcols] = entry.number;
            }
''')]),
('q-skew','I01','quiet',[(M,'''            IndexData<D> data_sym;
            data_sym.number = -data.number;
            data_sym.index = row;
            rows[data.index].insert(data_sym);
''','''            const auto col = data.index;
            data.number = -data.number;
            data.index = row;
            rows[col].insert(data);
''')]),
('q-lanes','I01','quiet',[(M,"    for(std::size_t i=0; size>0; ++i, --size) {","    for(std::size_t i=0; i<size; ++i) {")]),
('q-words','I01','quiet',[(M,'''        if(buffer != "array")
        {
          file.ignore(std::numeric_limits<std::streamsize>::max(),'\\n');
          return false;
        }
        mmHeader.type=array_type;
        break;
''','''        if(buffer == "array")
          mmHeader.type=array_type;
        else
        {
          file.ignore(std::numeric_limits<std::streamsize>::max(),'\\n');
          return false;
        }
        break;
''')]),
('q-print','I01','quiet',[(M,'''      for (auto row=entry.begin(); row != entry.end(); ++row, ++rowidx) {
        std::size_t coli=colidx;
''','''      for (auto row=entry.begin(); row != entry.end(); ++row) {
        std::size_t coli=colidx;
'''),(M,"          mm_print_entry(*col, rowidx, coli, ostr);\n","          mm_print_entry(*col, rowidx, coli, ostr);\n        ++rowidx;\n")]),
('q-newline','I01','quiet',[(M,'ostr << rowidx << " " << colidx << " " << entry << std::endl;','ostr << rowidx << \' \' << colidx << \' \' << entry << "\\n";')]),
('q-dim','I01','quiet',[(M,"    if(rows%brows!=0 || cols%bcols!=0)\n","    const bool divisible = rows%brows==0 && cols%bcols==0;\n    if(!divisible)\n")]),
('q-dim2','I01','quiet',[(M,"    if(rows%brows!=0 || cols%bcols!=0)\n","    if(rows!=(rows/brows)*brows || cols!=(cols/bcols)*bcols)\n")]),
]
