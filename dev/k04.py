F='ilu.hh'; L='ildl.hh'; D='dilu.hh'
def m(n,e,*ed): return (n,'K04',e,[((F,)+x if x[0] not in (L,D) else x) for x in ed])
W='''          while (ik!=endij && jk!=endjk)
            if (ik.index()==jk.index())
            {
              block B(*jk);
              Impl::asMatrix(B).leftmultiply(Impl::asMatrix(*ij));
              *ik -= B;
              ++ik; ++jk;
            }
            else
            {
              if (ik.index()<jk.index())
                ++ik;
              else
                ++jk;
            }
'''
T=[
m('q-ilu0-for','quiet',(W,'''          for (; ik!=endij && jk!=endjk; ) {
            const auto c = ik.index(), r = jk.index();
            if (c < r) { ++ik; continue; }
            if (c == r)
            {
              block B(*jk);
              Impl::asMatrix(B).leftmultiply(Impl::asMatrix(*ij));
              *ik -= B;
              ++ik;
            }
            ++jk;
          }
''')),
m('q-ilu0-find','quiet',(W,'''          for (; jk!=endjk; ++jk) {
            coliterator kk = (*i).find(jk.index());
            if (kk == endij) continue;
            block B(*jk);
            Impl::asMatrix(B).leftmultiply(Impl::asMatrix(*ij));
            *kk -= B;
          }
''')),
m('q-ilu0-catch','quiet',('sstream << THROWSPEC(MatrixBlockError)\n            << THROWSPEC(MatrixBlockError)','sstream << THROWSPEC(MatrixBlockError)')),
m('a-ilu0-stop','alarm',(W,W.replace('''              else
                ++jk;''','''              else
                break;'''))),
m('a-ilu0-both','alarm',(W,W.replace('''              else
                ++jk;''','''              else
                { ++jk; ++ik; }'''))),
m('a-ilu0-right','alarm',(W,W.replace('leftmultiply','rightmultiply'))),
m('a-ilu0-plus','alarm',(W,W.replace('*ik -= B','*ik += B'))),
m('a-ilu0-le','alarm',(W,W.replace('ik.index()<jk.index()','ik.index()<=i.index()'))),
m('a-ilu0-start','alarm',('coliterator ik=ij; ++ik;','coliterator ik=ij; ++ik; if (ik!=endij) ++ik;')),
m('a-ilu0-noend','alarm',('ij!=endij && ij.index()<i.index()','ij.index()<i.index()')),
m('a-ilu0-nodiag','alarm',('if (ij==endij || ij.index()!=i.index())','if (ij==endij)')),
m('a-ilu0-left','alarm',('Impl::asMatrix(*ij).rightmultiply(Impl::asMatrix(*jj));','Impl::asMatrix(*ij).leftmultiply(Impl::asMatrix(*jj));')),
m('a-ilu0-late','alarm',('Impl::asMatrix(*ij).rightmultiply(Impl::asMatrix(*jj));\n',''),(W,W+'          Impl::asMatrix(*ij).rightmultiply(Impl::asMatrix(*jj));\n')),
m('a-ildl-jk','alarm',(L,'bildl_subtractBCT(*ik, *jk, A_ij);\n            ++ik; ++jk;','bildl_subtractBCT(*jk, *ik, A_ij);\n            ++ik; ++jk;')),
m('a-ildl-le','alarm',(L,"while( (ik != ij) && (jk.index() < ij.index()) )","while( (ik != ij) && (jk.index() < ik.index()) )")),
m('a-ildl-B','alarm',(L,'bildl_subtractBCT( B, A_ik, A_ii );','bildl_subtractBCT( A_ik, A_ik, A_ii );')),
m('a-ildl-skip','alarm',(L,'''          else if( ik.index() < jk.index() )
            ++ik;
          else
            ++jk;
        }
      }

      if(''','''          else
            ++ik;
        }
      }

      if(''')),
m('a-ildl-diag','alarm',(L,'for( auto ik = A_i.begin(); ik != ij; ++ik )','for( auto ik = ++A_i.begin(); ik != ij; ++ik )')),
m('q-ildl-after','quiet',(L,'''        auto B = A_ik;
''','''        const auto B = *ik;
''')),
m('a-dilu-end','alarm',(D,'if (a_ji != A[col_j].end())','if (a_ji != A[row_i].end())')),
m('a-dilu-ii','alarm',(D,'(*a_ij) * Dinv_[col_j] * (*a_ji)','(*a_ij) * Dinv_[row_i] * (*a_ji)')),
m('a-dilu-ij','alarm',(D,'(*a_ij) * Dinv_[col_j] * (*a_ji)','(*a_ji) * Dinv_[col_j] * (*a_ij)')),
m('a-dilu-noend','alarm',(D,'if (a_ji != A[col_j].end())\n','')),
m('a-dilu-first','alarm',(D,'        const auto col = row->find(row_i);\n        if (col == row->end())','        const auto col = row->find(row_i);\n        if (false)')),
m('q-dilu-hoist','quiet',(D,'''            Dinv_[row_i] -= (*a_ij) * Dinv_[col_j] * (*a_ji);''','''            auto&& djj = Dinv_[col_j];
            Dinv_[row_i] -= (*a_ij) * djj * (*a_ji);''')),
m('q-dilu-fuse','quiet',(D,'''        Dinv_[row_i] = *col;
      }

      for (auto row = A.begin(); row != endi; ++row)
      {
        const auto row_i = row.index();
''','''        Dinv_[row_i] = *col;
''')),
# application
m('a-bs-lower','alarm',('for (coliterator j=(*i).begin(); j.index()<i.index(); ++j)\n          Impl::asMatrix(*j).mmv(Impl::asVector(v[j.index()]),rhs);\n        Impl::asVector(v','for (coliterator j=(*i).begin(); j.index()<i.index(); ++j)\n          Impl::asMatrix(*j).mmv(Impl::asVector(d[j.index()]),rhs);\n        Impl::asVector(v')),
m('a-bs-upper','alarm',('for (j=(*i).beforeEnd(); j.index()>i.index(); --j)','for (j=(*i).beforeEnd(); j.index()>i.index()+1; --j)')),
m('a-dbs','alarm',(D,'Impl::asMatrix(*a_ij).mmv(v[col_j], rhs);\n        }\n        // y_i','Impl::asMatrix(*a_ij).mmv(d[col_j], rhs);\n        }\n        // y_i')),
m('a-crs-start','alarm',('upper.rows_[ row+1 ] = colcount;','upper.rows_[ row ] = colcount;')),
]
