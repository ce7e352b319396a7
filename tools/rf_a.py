from rfall import rf
# ---- file.py: helper extracted from read and write
rf('file-checks-helper', ('file.py', """        if filename:
            self.filename = filename
        if not self.filename:
            raise Exception('No filename provided')
        if not os.path.isfile(self.filename):
            raise OSError(2,'File not found:',self.filename)
        if os.stat(self.filename).st_size == 0:
            raise EmptyFileError('File is empty:',self.filename)
        # Calling children function
        self._read(**kwargs)
""", """        self._setFilename(filename)
        checkReadable(self.filename)
        # Calling children function
        self._read(**kwargs)

    def _setFilename(self, filename=None):
        if filename:
            self.filename = filename
        elif not self.filename:
            raise Exception('No filename provided')
"""), ('file.py', """        if filename:
            self.filename = filename
        if not self.filename:
            raise Exception('No filename provided')
        # Calling children function
        self._write()
""", """        self._setFilename(filename)
        self._write()
"""), ('file.py', """# --- Helper functions
""", """# --- Helper functions
def checkReadable(path):
    if not os.path.isfile(path):
        raise OSError(2, 'File not found:', path)
    nBytes = os.path.getsize(path)
    if nBytes < 1:
        raise EmptyFileError('File is empty:', path)

"""))
# ---- __init__: detectFormat as for loop with helper; registration through a table
rf('detect-for', ('__init__.py', """    ext = os.path.splitext(filename.lower())[1]
    detected = False
    i = 0 
    while not detected and i<len(formats):
        myformat = formats[i]
        if ext in myformat.extensions:
            extMatch = True
        else:
            # Try patterns if present
            extPatterns = [ef.replace('.','\\.').replace('$','\\$').replace('*','[.]*') for ef in myformat.extensions if '*' in ef]
            if len(extPatterns)>0:
                extPatMatch = [re.match(pat, ext) is not None for pat in extPatterns]
                extMatch = any(extPatMatch)
            else:
                extMatch = False
        if extMatch: # we have a match on the extension
            valid, F = isRightFormat(myformat, filename, **kwargs)
            if valid:
                #print('File detected as :',myformat)
                detected=True
                return myformat,F

        i += 1

    if not detected:
        raise FormatNotDetectedError('The file format could not be detected for the file: '+filename)
""", """    _, ext = os.path.splitext(filename.lower())

    def extensionMatches(fmt):
        if ext in fmt.extensions:
            return True
        for ef in fmt.extensions:
            if '*' in ef:
                pat = ef.replace('.','\\.').replace('$','\\$').replace('*','[.]*')
                if re.match(pat, ext):
                    return True
        return False

    for myformat in formats:
        if not extensionMatches(myformat):
            continue
        valid, F = isRightFormat(myformat, filename, **kwargs)
        if valid:
            return myformat, F
    raise FormatNotDetectedError('The file format could not be detected for the file: {}'.format(filename))
"""))
rf('register-table', ('__init__.py', """    addFormat(0, FileFormat(CSVFile))
    addFormat(0, FileFormat(ExcelFile))
    addFormat(10, FileFormat(TecplotFile))
    addFormat(10, FileFormat(BladedFile))
""", """    for priority, cls in ((0, CSVFile), (0, ExcelFile), (10, TecplotFile), (10, BladedFile)):
        addFormat(priority, FileFormat(cls))
"""), ('__init__.py', """    # --- Sort fileformats by priorities
    formats = np.asarray(formats)[np.argsort(priorities, kind='stable')]
""", """    # --- Sort fileformats by priorities
    order = sorted(range(len(formats)), key=lambda i: priorities[i])
    formats = [formats[i] for i in order]
"""))
rf('isright', ('file_formats.py', """        F=fileformat.constructor(filename=filename, **kwargs)
        return True,F
    except MemoryError:
        raise
    except WrongFormatError:
        return False,None
    except:
        raise
""", """        F = fileformat.constructor(filename=filename, **kwargs)
    except WrongFormatError:
        return False, None
    return True, F
"""))
# ---- csv: nested functions to module, writer restructured
rf('csv-write', ('csv_file.py', """        # --- Safety
        sep = self.sep
        if sep==r'\\s+' or sep=='':
            sep='\\t'
        # Write
        if len(self.header)>0:
            with open(self.filename, 'w', encoding='utf-8') as f:
                f.write('\\n'.join(self.header)+'\\n')
            with open(self.filename, 'a', encoding='utf-8') as f:
                try:
                    self.data.to_csv(f,   sep=sep,     index=False,header=False, line_terminator='\\n')
                except TypeError:
                    print('[WARN] CSVFile: Pandas failed, likely encoding error. Attempting a quick and dirty fix.')
                    s=''
                    vals=self.data.values
                    for l in vals:
                        sLine=(sep).join([str(v) for v in l])
                        s+=sLine+'\\n'
                    f.write(s)
        else:
            self.data.to_csv(self.filename,sep=sep,index=False)
""", """        sep = '\\t' if self.sep in (r'\\s+', '') else self.sep
        if not len(self.header):
            self.data.to_csv(self.filename, sep=sep, index=False)
            return
        with open(self.filename, 'w', encoding='utf-8') as f:
            for h in self.header:
                f.write(h+'\\n')
            try:
                self.data.to_csv(f, sep=sep, index=False, header=False, line_terminator='\\n')
            except TypeError:
                print('[WARN] CSVFile: Pandas failed, likely encoding error. Attempting a quick and dirty fix.')
                lines = [sep.join(map(str, l)) for l in self.data.values]
                f.write('\\n'.join(lines)+'\\n')
"""))
rf('csv-readline', ('csv_file.py', """            with open(self.filename,'r',encoding=self.encoding) as f:
                for i, line in enumerate(f):
                    if i==iLine:
                        return line.strip()
                    elif i>iLine:
                        break
        def split(s):
""", """            f = open(self.filename,'r',encoding=self.encoding)
            try:
                i = 0
                for line in f:
                    if i==iLine:
                        return line.strip()
                    i += 1
            finally:
                f.close()
            return None
        def split(s):
"""), ('csv_file.py', """                with open(self.filename,'r',encoding=self.encoding) as f:
                    n=0
                    while n<100:
                        l = f.readline().strip()
                        if (not l) or (l+'_dummy')[0] != self.commentChar[0]:
                            break
                        self.header.append(l.strip())
                        n+=1

        iStartLine = len(self.header)
""", """                with open(self.filename,'r',encoding=self.encoding) as f:
                    for n in range(100):
                        l = f.readline().strip()
                        if not l.startswith(self.commentChar[0]):
                            break
                        self.header.append(l)

        iStartLine = len(self.header)
"""), ('csv_file.py', """        skiprows = list(range(iStartLine))
        if (self.colNamesLine is not None):
            skiprows.append(self.colNamesLine)
        if (self.commentLines is not None) and len(self.commentLines)>0:
            skiprows = skiprows + self.commentLines
        skiprows =list(sorted(set(skiprows)))
""", """        toSkip = set(range(iStartLine))
        if self.colNamesLine is not None:
            toSkip.add(self.colNamesLine)
        toSkip.update(self.commentLines or [])
        skiprows = sorted(toSkip)
"""))
# ---- fast_output: dispatch, loops
rf('out-read', ('fast_output_file.py', """            if ext in ['.out','.elev']:
                self.data, self.info = load_ascii_output(self.filename)
            elif ext=='.outb':
                self.data, self.info = load_binary_output(self.filename)
                self['binary']=True
            elif ext=='.elm':
                F=CSVFile(filename=self.filename, sep=' ', commentLines=[0,2],colNamesLine=1)
                self.data = F.data
                del F
                self.info['attribute_units']=readline(3).replace('sec','s').split()
                self.info['attribute_names']=self.data.columns.values
            else:
                self.data, self.info = load_output(self.filename)
""", """            readers = {'.out':load_ascii_output, '.elev':load_ascii_output, '.outb':load_binary_output}
            if ext=='.elm':
                self._readElm(readline)
            else:
                self.data, self.info = readers.get(ext, load_output)(self.filename)
            self['binary'] = ext=='.outb'
"""), ('fast_output_file.py', """    def _write(self): 
        if self['binary']:
""", """    def _readElm(self, readline):
        F=CSVFile(filename=self.filename, sep=' ', commentLines=[0,2],colNamesLine=1)
        self.data = F.data
        self.info['attribute_units']=readline(3).replace('sec','s').split()
        self.info['attribute_names']=self.data.columns.values

    def _write(self): 
        if self['binary']:
"""))
rf('out-write', ('fast_output_file.py', """            with open(self.filename,'w') as f:
                f.write('\\t'.join(['{:>10s}'.format(c)         for c in self.info['attribute_names']])+'\\n')
                f.write('\\t'.join(['{:>10s}'.format('('+u+')') for u in self.info['attribute_units']])+'\\n')
                # TODO better..
                f.write('\\n'.join(['\\t'.join(['{:10.4f}'.format(y[0])]+['{:10.3e}'.format(x) for x in y[1:]]) for y in self.data]))
""", """            lines = ['\\t'.join(['{:>10s}'.format(c) for c in self.info['attribute_names']])]
            lines.append('\\t'.join(['{:>10s}'.format('('+u+')') for u in self.info['attribute_units']]))
            for y in self.data:
                lines.append('\\t'.join(['{:10.4f}'.format(y[0])]+['{:10.3e}'.format(x) for x in y[1:]]))
            content = '\\n'.join(lines)
            with open(self.filename,'w') as f:
                f.write(content)
"""))
rf('out-ascii-loop', ('fast_output_file.py', """        in_header = True
        header = []
        while in_header:
            l = f.readline()
            if not l:
                raise Exception('Error finding the end of FAST out file header. Keyword Time missing.')
            in_header= (l+' dummy').lower().split()[0] != 'time'
            if in_header:
                header.append(l)
            else:
                info['description'] = header
                info['attribute_names'] = l.split()
                info['attribute_units'] = [unit[1:-1] for unit in f.readline().split()]
""", """        header = []
        l = f.readline()
        while (l+' dummy').lower().split()[0] != 'time':
            if l == '':
                raise Exception('Error finding the end of FAST out file header. Keyword Time missing.')
            header.append(l)
            l = f.readline()
        info['description'] = header
        info['attribute_names'] = l.split()
        info['attribute_units'] = [unit[1:-1] for unit in f.readline().split()]
"""))
rf('out-buffer', ('fast_output_file.py', """            nIntRead   = 0
            nLinesRead = 0
            while nIntRead<n:
                nIntToRead = min(n-nIntRead, BufferSize)
                nLinesToRead = int(nIntToRead/nCols)
                Buffer = np.array(struct.unpack(fmt * nIntToRead, fid.read(nbytes * nIntToRead)))
                Buffer = Buffer.reshape(-1,nCols)
                data[ nLinesRead:(nLinesRead+nLinesToRead),  nOff:(nOff+nCols)  ] = Buffer
                nLinesRead = nLinesRead + nLinesToRead
                nIntRead   = nIntRead   + nIntToRead
""", """            nIntRead = 0
            for iStart in range(0, nLines, nLinesPerBuffer):
                iEnd = min(iStart+nLinesPerBuffer, nLines)
                nInt = (iEnd-iStart)*nCols
                values = struct.unpack('{:d}{}'.format(nInt, fmt), fid.read(nbytes*nInt))
                data[iStart:iEnd, nOff:] = np.asarray(values).reshape(iEnd-iStart, nCols)
                nIntRead += nInt
"""))
