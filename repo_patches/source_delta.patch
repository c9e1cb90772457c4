From f224117d3325d003641568386ba6da81be64499a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:13 +0000
Subject: [PATCH 01/91] fix: LDML relativeTime children other than
 relativeTimePattern were silently ignored

---
 BibleOrgSys/Reference/LDML.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/BibleOrgSys/Reference/LDML.py b/BibleOrgSys/Reference/LDML.py
index 29bb21c..42199a1 100755
--- a/BibleOrgSys/Reference/LDML.py
+++ b/BibleOrgSys/Reference/LDML.py
@@ -2562,6 +2562,9 @@ class LDMLFile:
                                                     logging.error( _("Unprocessed {!r} attribute ({}) in {}").format( attrib, value, sub4elementLocation ) )
                                                     if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
                                             pass # save Text XXXXXXXXXXXXXXXXXXX
+                                        else:
+                                            logging.error( _("Unprocessed {!r} sub4element ({}) in {}").format( sub4element.tag, sub4element.text.strip() if sub4element.text else sub4element.text, sub3elementLocation ) )
+                                            if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag: halt
                                 elif sub3element.tag == 'alias':
                                     BibleOrgSysGlobals.checkXMLNoText( sub3element, sub3elementLocation )
                                     BibleOrgSysGlobals.checkXMLNoSubelements( sub3element, sub3elementLocation )
-- 
2.43.0


From 4dc6554040233df37759d43a58eab11aead6fd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:13 +0000
Subject: [PATCH 02/91] fix: non-entry elements in the Strongs Greek lexicon
 were silently ignored

---
 .../OriginalLanguages/Converters/GreekLexiconConverter.py        | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/OriginalLanguages/Converters/GreekLexiconConverter.py b/BibleOrgSys/OriginalLanguages/Converters/GreekLexiconConverter.py
index 230f740..6fd0ca4 100755
--- a/BibleOrgSys/OriginalLanguages/Converters/GreekLexiconConverter.py
+++ b/BibleOrgSys/OriginalLanguages/Converters/GreekLexiconConverter.py
@@ -162,6 +162,7 @@ class GreekStrongsFileConverter:
         for element in segment:
             if element.tag == 'entry':
                 self.validateEntry( element )
+            else: logging.error( "ks25 Unprocessed {!r} element ({}) in entries".format( element.tag, element.text ) )
     # end of GreekStrongsFileConverter.validateEntries
 
 
-- 
2.43.0


From b7930e913ce6df3dddc162c4c943d0d6048944cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:19 +0000
Subject: [PATCH 03/91] fix: unknown children of LDML
 localeDisplayNames/special were silently skipped (or crashed on empty text)

---
 BibleOrgSys/Reference/LDML.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/BibleOrgSys/Reference/LDML.py b/BibleOrgSys/Reference/LDML.py
index 42199a1..05ae54c 100755
--- a/BibleOrgSys/Reference/LDML.py
+++ b/BibleOrgSys/Reference/LDML.py
@@ -1525,12 +1525,10 @@ class LDMLFile:
                     BibleOrgSysGlobals.checkXMLNoTail( subelement, subelementLocation )
                     for sub2element in subelement:
                         sub2elementLocation = sub2element.tag + ' in ' + subelementLocation
-                        if 1 or DEBUGGING_THIS_MODULE: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "      ProcessingLDP7 {} ({})…".format( sub2elementLocation, sub2element.text.strip() ) )
+                        #dPrint( 'Never', DEBUGGING_THIS_MODULE, "      ProcessingLDP7 {} ({})…".format( sub2elementLocation, sub2element.text.strip() ) )
                         BibleOrgSysGlobals.checkXMLNoAttributes( sub2element, sub2elementLocation )
                         BibleOrgSysGlobals.checkXMLNoText( sub2element, sub2elementLocation )
                         BibleOrgSysGlobals.checkXMLNoTail( sub2element, sub2elementLocation )
-                        continue
-# TODO: Write this
                         if sub2element.tag in ('names',):
                             lDraft = None
                             for attrib,value in sub2element.items():
-- 
2.43.0


From 550651a43980d67aca0bea3479ede661f18c9c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 04/91] fix: doAllExports aborted with an AssertionError when
 the parallel exports timed out (25 placeholder results for 29 exports)

---
 BibleOrgSys/BibleWriter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index b094df8..7979d2a 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -9949,8 +9949,7 @@ class BibleWriter( InternalBible ):
                 results = [result if wantPhotoBible else None, # Just have to assume everything worked
                                     #result if wantODFs else None,
                                     result if wantPDFs else None,
-                                    result, result, result, result, result, result, result, result, result, result, result, result,
-                                    result, result, result, result, result, result, result, result, result, result, result, ]
+                                    ] + [result] * (len(self.__outputProcesses) - 2)
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "async results2 are", results )
             BibleOrgSysGlobals.alreadyMultiprocessing = False
             vPrint( 'Info', DEBUGGING_THIS_MODULE, "BibleWriter.doAllExports: Multiprocessing got {} results".format( len(results) ) )
-- 
2.43.0


From 50fca5f993ffc1943609972b17e1e47c1e52b5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 05/91] fix: doAllExports dropped the result of the
 PickledBible export

---
 BibleOrgSys/BibleWriter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 7979d2a..c4d71ff 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -10150,10 +10150,10 @@ class BibleWriter( InternalBible ):
                     logger.error( "BibleWriter.doAllExports.toTeX: Oops, failed with {}!".format( err ) )
 
         if BibleOrgSysGlobals.verbosityLevel > 1:
-            finishString = "BibleWriter.doAllExports finished:  Pck={}  Lst={}  BCV={} PsUSFM={} USFM2={} USFM3={} ESFM={} Tx={} VPL={}  md={}  " \
+            finishString = "BibleWriter.doAllExports finished:  Pck={} PckB={}  Lst={}  BCV={} PsUSFM={} USFM2={} USFM3={} ESFM={} Tx={} VPL={}  md={}  " \
                             "HTML={} BD={} EWB={}  USX2={} USX3={}  USFX={} OSIS={}  Zef={} Hag={} OS={}  Sw={}  " \
                             "tW={} MySw={} eSw={} MyB={}  SwS={} Dr={}  PB={} ODF={} TeX={} {}" \
-                .format( pickleResult, listOutputResult, BCVExportResult,
+                .format( pickleResult, pickledBibleOutputResult, listOutputResult, BCVExportResult,
                     pseudoUSFMExportResult, USFM2ExportResult, USFM3ExportResult, ESFMExportResult,
                     textExportResult, VPLExportResult,
                     markdownExportResult, #D43ExportResult,
@@ -10179,10 +10179,10 @@ class BibleWriter( InternalBible ):
             #and SwSExportResult and DrExportResult \
             #and (PhotoBibleExportResult or not wantPhotoBible) and (ODFExportResult or not wantODFs) and (TeXExportResult or not wantPDFs):
             if falseCount == 0:
-                vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "BibleWriter.doAllExports finished all requested (which was {}/30) exports successfully!".format( trueCount ) )
+                vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "BibleWriter.doAllExports finished all requested (which was {}/31) exports successfully!".format( trueCount ) )
             else:
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "{} ({} True, {} False, {} None)".format( finishString, trueCount, falseCount, noneCount ) )
-        return { 'Pickle':pickleResult, 'listOutput':listOutputResult, 'BCVOutput':BCVExportResult,
+        return { 'Pickle':pickleResult, 'PickledBible':pickledBibleOutputResult, 'listOutput':listOutputResult, 'BCVOutput':BCVExportResult,
                 'pseudoUSFMExport':pseudoUSFMExportResult, 'USFM2Export':USFM2ExportResult, 'USFM3Export':USFM3ExportResult, 'ESFMExport':ESFMExportResult,
                 'textExport':textExportResult, 'VPLExport':VPLExportResult,
                 'markdownExport':markdownExportResult, #'D43Export':D43ExportResult,
-- 
2.43.0


From affa050f8560bb5832fc3115b419103f65c928e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 06/91] fix: an unpicklable Bible object (AttributeError etc.)
 stopped doAllExports before any other export was done

---
 BibleOrgSys/BibleWriter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index c4d71ff..03eb0d9 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -9836,9 +9836,10 @@ class BibleWriter( InternalBible ):
         if BibleOrgSysGlobals.debugFlag: pickleResult = self.toPickleObject( pickleOutputFolder ) # halts if fails
         else:
             try: pickleResult = self.toPickleObject( pickleOutputFolder )
-            except (IOError,TypeError):
+            except Exception as err: # e.g., AttributeError "Can't pickle local object"
                 pickleResult = False
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "BibleWriter.doAllExports: pickle( {} ) failed.".format( pickleOutputFolder ) )
+                logger.error( "BibleWriter.doAllExports.toPickleObject: Oops, failed with {}!".format( err ) )
         if not self.doneSetupGeneric: self.__setupWriter()
         if 'discoveryResults' not in self.__dict__: self.discover()
 
-- 
2.43.0


From a97b099ad95f4bb6bb81e97dd174a96b78477277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:07 +0000
Subject: [PATCH 07/91] fix: importing SwordModules (and so UnknownBible)
 failed without a controlling terminal (os.getlogin at import)

---
 BibleOrgSys/Formats/SwordModules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/SwordModules.py b/BibleOrgSys/Formats/SwordModules.py
index 2630468..e47994c 100755
--- a/BibleOrgSys/Formats/SwordModules.py
+++ b/BibleOrgSys/Formats/SwordModules.py
@@ -90,8 +90,8 @@ DEBUGGING_THIS_MODULE = False
 #   These should be the folders that contain mods.d and modules folders inside them
 DEFAULT_SWORD_SEARCH_FOLDERS = ( '/usr/share/sword/',
                         os.path.join( os.path.expanduser('~'), '.sword/'),
-                        'C:\\Users\\{}\\AppData\\Roaming\\Sword\\'.format( os.getlogin() ),
-                        'C:\\Users\\{}\\AppData\\Local\\VirtualStore\\Program Files\\BPBible\\resources\\'.format( os.getlogin() ),
+                        os.path.join( os.path.expanduser('~'), 'AppData\\Roaming\\Sword\\'), # os.getlogin() fails without a controlling terminal
+                        os.path.join( os.path.expanduser('~'), 'AppData\\Local\\VirtualStore\\Program Files\\BPBible\\resources\\'),
                         'C:\\Program Files\\BPBible\\resources\\', 'C:\\Program Files (x86)\\BPBible\\resources\\',
                         'TestData/', )
 SwordSearchFolders = list( DEFAULT_SWORD_SEARCH_FOLDERS )
-- 
2.43.0


From c8b2ece157fc6447839c6340923b962caec0d514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:22 +0000
Subject: [PATCH 08/91] fix: UnknownBible.search ignored the counts of its
 second (strict/unstrict) check, so found nothing or picked the wrong format

---
 BibleOrgSys/UnknownBible.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/BibleOrgSys/UnknownBible.py b/BibleOrgSys/UnknownBible.py
index 6b370f3..f78b800 100755
--- a/BibleOrgSys/UnknownBible.py
+++ b/BibleOrgSys/UnknownBible.py
@@ -690,6 +690,8 @@ class UnknownBible:
                 vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "UnknownBible.recheck: After {} {} {}".format( totalBibleCount, totalBibleTypes, typesFound ) )
                 vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "UnknownBible.recheck: Found {} {} {}".format( totalBibleUnstrictCount, totalBibleStrictTypes, typesUnstrictlyFound ) )
                 totalBibleCount, totalBibleTypes, typesFound = totalBibleUnstrictCount, totalBibleStrictTypes, typesUnstrictlyFound
+                if totalBibleCount: # Start over so that the individual counts below are also the unstrict ones
+                    return self.search( strictCheck=False, autoLoad=autoLoad, autoLoadAlways=autoLoadAlways, autoLoadBooks=autoLoadBooks )
         elif totalBibleCount > 1:
             if totalBibleTypes == 1:
                 if BibleOrgSysGlobals.verbosityLevel > 1:
@@ -712,6 +714,8 @@ class UnknownBible:
                     vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "UnknownBible.recheck: After {} {} {}".format( totalBibleCount, totalBibleTypes, typesFound ) )
                     vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "UnknownBible.recheck: Found {} {} {}".format( totalBibleStrictCount, totalBibleStrictTypes, typesStrictlyFound ) )
                     totalBibleCount, totalBibleTypes, typesFound = totalBibleStrictCount, totalBibleStrictTypes, typesStrictlyFound
+                    if totalBibleCount == 1: # Start over so that the individual counts below are also the strict ones
+                        return self.search( strictCheck=True, autoLoad=autoLoad, autoLoadAlways=autoLoadAlways, autoLoadBooks=autoLoadBooks )
             if autoLoadAlways and BibleOrgSysGlobals.verbosityLevel > 0:
                 # If there's only one of a particular type, we'll go for that one
                 haveSingle = False
-- 
2.43.0


From 5e9108fdd4ca868de2924b594e301736ab644805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:52 +0000
Subject: [PATCH 09/91] fix: BCV, Pickled, uWNotes and uWOBS FileChecks crashed
 (IndexError) on auto-loading the one Bible found in a subfolder

---
 BibleOrgSys/Formats/BCVBible.py     | 1 +
 BibleOrgSys/Formats/PickledBible.py | 1 +
 BibleOrgSys/Formats/uWNotesBible.py | 1 +
 BibleOrgSys/Formats/uWOBSBible.py   | 1 +
 4 files changed, 4 insertions(+)

diff --git a/BibleOrgSys/Formats/BCVBible.py b/BibleOrgSys/Formats/BCVBible.py
index ce47eb2..f53049e 100755
--- a/BibleOrgSys/Formats/BCVBible.py
+++ b/BibleOrgSys/Formats/BCVBible.py
@@ -147,6 +147,7 @@ def BCVBibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad:bool=Fal
 
         # See if there's an BCV Bible here in this folder
         if METADATA_FILENAME in foundSubfiles:
+            foundProjects.append( tryFolderName )
             numFound += 1
             if strictCheck:
                 for folderName in foundSubfolders:
diff --git a/BibleOrgSys/Formats/PickledBible.py b/BibleOrgSys/Formats/PickledBible.py
index 7caa927..e1e0f1e 100755
--- a/BibleOrgSys/Formats/PickledBible.py
+++ b/BibleOrgSys/Formats/PickledBible.py
@@ -166,6 +166,7 @@ def PickledBibleFileCheck( givenPathname:Path, strictCheck:bool=True, autoLoad:b
                     #somethingUpper = something.upper()
                     if something in (ZIPPED_PICKLE_FILENAME_END, VERSION_FILENAME):
                         foundSubfiles.append( something )
+                        foundProjects.append( tryFolderName )
                         numFound += 1
         except PermissionError: pass # can't read folder, e.g., system folder
 
diff --git a/BibleOrgSys/Formats/uWNotesBible.py b/BibleOrgSys/Formats/uWNotesBible.py
index 6edcfca..95aff27 100755
--- a/BibleOrgSys/Formats/uWNotesBible.py
+++ b/BibleOrgSys/Formats/uWNotesBible.py
@@ -436,6 +436,7 @@ def uWNotesBibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad:bool
 
         # See if there's an uW Notes Bible here in this folder
         if METADATA_FILENAME in foundSubfiles:
+            foundProjects.append( tryFolderName )
             numFound += 1
             if strictCheck:
                 for folderName in foundSubfolders:
diff --git a/BibleOrgSys/Formats/uWOBSBible.py b/BibleOrgSys/Formats/uWOBSBible.py
index 0392b79..701bfcd 100755
--- a/BibleOrgSys/Formats/uWOBSBible.py
+++ b/BibleOrgSys/Formats/uWOBSBible.py
@@ -158,6 +158,7 @@ def uWOBSBibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad:bool=F
 
         # See if there's an uW OBS Bible here in this folder
         if METADATA_FILENAME in foundSubfiles:
+            foundProjects.append( tryFolderName )
             numFound += 1
             if strictCheck:
                 for folderName in foundSubfolders:
-- 
2.43.0


From 0dde698d7cb590840729bed6d80de58b78b65b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:52 +0000
Subject: [PATCH 10/91] fix: e-Sword and VerseView FileChecks did not return
 the one Bible found unless both auto-load flags were set

---
 BibleOrgSys/Formats/ESwordBible.py       | 2 +-
 BibleOrgSys/Formats/ESwordCommentary.py  | 2 +-
 BibleOrgSys/Formats/VerseViewXMLBible.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index cbc3521..a035c4d 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -176,7 +176,7 @@ def ESwordBibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad:bool=
             numFound += 1
     if numFound:
         vPrint( 'Info', DEBUGGING_THIS_MODULE, "ESwordBibleFileCheck foundProjects", numFound, foundProjects )
-        if numFound == 1 and (autoLoad and autoLoadBooks):
+        if numFound == 1 and (autoLoad or autoLoadBooks):
             vPrint( 'Normal', DEBUGGING_THIS_MODULE, "{} doing autoload of {}…".format( PROGRAM_NAME_VERSION, foundProjects[0][1] ) )
             if BibleOrgSysGlobals.debugFlag: assert len(foundProjects) == 1
             eSB = ESwordBible( foundProjects[0][0], foundProjects[0][1] )
diff --git a/BibleOrgSys/Formats/ESwordCommentary.py b/BibleOrgSys/Formats/ESwordCommentary.py
index 8552705..20cbf7c 100755
--- a/BibleOrgSys/Formats/ESwordCommentary.py
+++ b/BibleOrgSys/Formats/ESwordCommentary.py
@@ -175,7 +175,7 @@ def ESwordCommentaryFileCheck( givenFolderName, strictCheck:bool=True, autoLoad:
             numFound += 1
     if numFound:
         vPrint( 'Info', DEBUGGING_THIS_MODULE, "ESwordCommentaryFileCheck foundProjects", numFound, foundProjects )
-        if numFound == 1 and (autoLoad and autoLoadBooks):
+        if numFound == 1 and (autoLoad or autoLoadBooks):
             vPrint( 'Normal', DEBUGGING_THIS_MODULE, "{} doing autoload of {}…".format( PROGRAM_NAME_VERSION, foundProjects[0][1] ) )
             if BibleOrgSysGlobals.debugFlag: assert len(foundProjects) == 1
             eSB = ESwordCommentary( foundProjects[0][0], foundProjects[0][1] )
diff --git a/BibleOrgSys/Formats/VerseViewXMLBible.py b/BibleOrgSys/Formats/VerseViewXMLBible.py
index 3dcd4a4..cad4c30 100755
--- a/BibleOrgSys/Formats/VerseViewXMLBible.py
+++ b/BibleOrgSys/Formats/VerseViewXMLBible.py
@@ -152,7 +152,7 @@ def VerseViewXMLBibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad
         numFound += 1
     if numFound:
         vPrint( 'Info', DEBUGGING_THIS_MODULE, "VerseViewXMLBibleFileCheck got", numFound, givenFolderName, lastFilenameFound )
-        if numFound == 1 and (autoLoad and autoLoadBooks):
+        if numFound == 1 and (autoLoad or autoLoadBooks):
             ub = VerseViewXMLBible( givenFolderName, lastFilenameFound )
             if autoLoadBooks: ub.load() # Load and process the file
             return ub
-- 
2.43.0


From 1dda13cd2273e6926c22f24616c100da7bb27d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:51 +0000
Subject: [PATCH 11/91] fix: EasyWorship export dropped books it cannot encode
 (no chapters/verses, or not in its 66-book table) without any warning

---
 BibleOrgSys/Formats/EasyWorshipBible.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/BibleOrgSys/Formats/EasyWorshipBible.py b/BibleOrgSys/Formats/EasyWorshipBible.py
index ae689ed..84c06c7 100755
--- a/BibleOrgSys/Formats/EasyWorshipBible.py
+++ b/BibleOrgSys/Formats/EasyWorshipBible.py
@@ -182,6 +182,7 @@ def createEasyWorshipBible( BibleObject, outputFolder=None ):
     compressedDictionary = {}
     for BBB,bookObject in BibleObject.books.items():
         if not BibleOrgSysGlobals.loadedBibleBooksCodes.isChapterVerseBook( BBB ):
+            logging.warning( "createEasyWorshipBible: Unable to export {} because it has no chapters and verses".format( BBB ) )
             continue # Ignore these books
         pseudoESFMData = bookObject._processedLines
 
@@ -288,6 +289,10 @@ def createEasyWorshipBible( BibleObject, outputFolder=None ):
         myFile.write( nameBytes + b'\x00' * (56 - len(nameBytes)) )
         assert myFile.tell() == 88 # 32 + 56
 
+        for BBB in compressedDictionary:
+            if BBB not in BOS.getBookList():
+                logging.warning( "createEasyWorshipBible: Unable to export {} because the module has no place for it".format( BBB ) )
+
         # Write the numChapters,numVerses info along with the file position and length
         for BBB in BOS.getBookList():
             #bookName = BibleObject.getAssumedBookName( BBB )
-- 
2.43.0


From 7cb0c4c0f69ed06a3d7df1c024ed929936d551b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:11 +0000
Subject: [PATCH 12/91] fix: BCV loading executed the BookList and CVList of
 its metadata files with eval

---
 BibleOrgSys/Formats/BCVBible.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/BCVBible.py b/BibleOrgSys/Formats/BCVBible.py
index f53049e..77b41c8 100755
--- a/BibleOrgSys/Formats/BCVBible.py
+++ b/BibleOrgSys/Formats/BCVBible.py
@@ -27,6 +27,7 @@
 Module for defining and manipulating complete or partial BCV Bibles.
 """
 from gettext import gettext as _
+import ast
 import os
 from pathlib import Path
 import logging
@@ -283,7 +284,7 @@ class BCVBible( Bible ):
             #self.projectName = self.suppliedMetadata['BCV']['Abbreviation']
         if 'BookList' in self.suppliedMetadata['BCV']:
             BL = self.suppliedMetadata['BCV']['BookList']
-            if BL and BL[0]=='[' and BL[-1]==']': self.givenBookList = eval( BL )
+            if BL and BL[0]=='[' and BL[-1]==']': self.givenBookList = ast.literal_eval( BL )
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'x1', repr(self.givenBookList), repr(self.givenBookList[2]) )
             if isinstance( self.givenBookList, list ):
                 # del self.suppliedMetadata['BCV']['BookList']
@@ -447,7 +448,7 @@ class BCVBibleBook( BibleBook ):
         if 'CVList' in settingsDict:
             #self.givenCVList = None
             CVL = settingsDict['CVList']
-            if CVL and CVL[0]=='[' and CVL[-1]==']': self.givenCVList = eval( CVL )
+            if CVL and CVL[0]=='[' and CVL[-1]==']': self.givenCVList = ast.literal_eval( CVL )
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'x1', repr(self.givenCVList) )
             if isinstance( self.givenCVList, list ): del settingsDict['CVList']
             else: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "ERROR: Unexpected {!r} format in metadata file".format( CVL ) )
-- 
2.43.0


From fe97b03312a3818e89ae2d93603d7bb483ac871d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:11 +0000
Subject: [PATCH 13/91] fix: Sword repository archives were unpacked without
 containing their members in the target folder

---
 BibleOrgSys/Online/SwordInstallManager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Online/SwordInstallManager.py b/BibleOrgSys/Online/SwordInstallManager.py
index 39670c8..fc3b6e8 100755
--- a/BibleOrgSys/Online/SwordInstallManager.py
+++ b/BibleOrgSys/Online/SwordInstallManager.py
@@ -382,7 +382,7 @@ class SwordInstallManager():
         # Extract the files from the compressed tar.gz file
         if os.path.isfile( repoCompressedSaveFilepath ):
             allConfigsTar = tarfile.open( repoCompressedSaveFilepath, mode='r:gz')
-            allConfigsTar.extractall( path=repoSaveFolder )
+            allConfigsTar.extractall( path=repoSaveFolder, filter="data" )
         repoConfFolder = os.path.join( repoSaveFolder, repoConfFolderName )
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'repoConfFolder', repoConfFolder )
 
-- 
2.43.0


From 6353f683253379da03a5df8c8c917c74e7e7fa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:29 +0000
Subject: [PATCH 14/91] fix: MLWriter wrote XML/HTML declared as UTF-8 in the
 encoding of the locale

---
 BibleOrgSys/InputOutput/MLWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/InputOutput/MLWriter.py b/BibleOrgSys/InputOutput/MLWriter.py
index 809cfab..4bbfaed 100755
--- a/BibleOrgSys/InputOutput/MLWriter.py
+++ b/BibleOrgSys/InputOutput/MLWriter.py
@@ -362,7 +362,7 @@ class MLWriter:
             with open( self._outputFilePath, 'ab' ) as self.__outputFile: # Append binary bytes
                 self.__outputFile.write( b'\xef\xbb\xbf' )
                 #self.__outputFile.write( decode( codecs.BOM_UTF8 ) )
-        self.__outputFile = open( self._outputFilePath, 'at' ) # Append text mode
+        self.__outputFile = open( self._outputFilePath, 'at', encoding='utf-8' ) # Append text mode
         self._status = 'Open'
         self._currentColumn = 0
         if self._outputType=='XML' and not noAutoXML:
-- 
2.43.0


From 9415890bfb525aa872380d8eb3e55fd90304dcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:29 +0000
Subject: [PATCH 15/91] fix: the Sword conf template was read in the encoding
 of the locale

---
 BibleOrgSys/BibleWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 03eb0d9..95117ac 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -6443,7 +6443,7 @@ class BibleWriter( InternalBible ):
 
             # Read the default conf file
             try:
-                with open( os.path.join( defaultControlFolderpath, 'SwordProject.conf' ) ) as myFile: confText = myFile.read()
+                with open( os.path.join( defaultControlFolderpath, 'SwordProject.conf' ), encoding='utf-8' ) as myFile: confText = myFile.read()
             except FileNotFoundError:
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "dCF", defaultControlFolderpath )
                 logger.critical( "toSwordModule: Unable to read sample conf file SwordProject.conf" )
-- 
2.43.0


From 81d2ee7112e93311dfff868e0b6a3eca341e1bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:29 +0000
Subject: [PATCH 16/91] fix: BCV book metadata was read in the encoding of the
 locale

---
 BibleOrgSys/Formats/BCVBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/BCVBible.py b/BibleOrgSys/Formats/BCVBible.py
index 77b41c8..d31fdbc 100755
--- a/BibleOrgSys/Formats/BCVBible.py
+++ b/BibleOrgSys/Formats/BCVBible.py
@@ -415,7 +415,7 @@ class BCVBibleBook( BibleBook ):
         self.metadataFilepath = metadataFilepath
         self.givenCVList = None
         lastLine, lineCount, status, settingsDict = '', 0, 0, {}
-        with open( metadataFilepath ) as myFile: # Automatically closes the file when done
+        with open( metadataFilepath, 'rt', encoding='utf-8' ) as myFile: # Automatically closes the file when done
             for line in myFile:
                 lineCount += 1
                 if lineCount==1 and line and line[0]==BibleOrgSysGlobals.BOM:
-- 
2.43.0


From a20e4c47ccf99fd2208bd7c046f5076f251769a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:29 +0000
Subject: [PATCH 17/91] fix: VPL and CSV Bibles created without an encoding
 were read in the encoding of the locale (VPL then crashed on
 encoding.lower())

---
 BibleOrgSys/Formats/CSVBible.py | 2 +-
 BibleOrgSys/Formats/VPLBible.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/CSVBible.py b/BibleOrgSys/Formats/CSVBible.py
index efb2691..5bffcc3 100755
--- a/BibleOrgSys/Formats/CSVBible.py
+++ b/BibleOrgSys/Formats/CSVBible.py
@@ -223,7 +223,7 @@ class CSVBible( Bible ):
         self.objectTypeString = 'CSV'
 
         # Now we can set our object variables
-        self.givenName, self.abbreviation, self.encoding = givenName, givenAbbreviation, encoding
+        self.givenName, self.abbreviation, self.encoding = givenName, givenAbbreviation, encoding if encoding else 'utf-8'
         if self.givenName and not self.name:
             self.name = self.givenName
         if os.path.isfile( sourceFileOrFolder ):
diff --git a/BibleOrgSys/Formats/VPLBible.py b/BibleOrgSys/Formats/VPLBible.py
index d53e9b2..684980e 100755
--- a/BibleOrgSys/Formats/VPLBible.py
+++ b/BibleOrgSys/Formats/VPLBible.py
@@ -306,7 +306,7 @@ class VPLBible( Bible ):
         self.objectTypeString = 'VPL'
 
         # Now we can set our object variables
-        self.givenName, self.abbreviation, self.encoding = givenName, givenAbbreviation, encoding
+        self.givenName, self.abbreviation, self.encoding = givenName, givenAbbreviation, encoding if encoding else 'utf-8'
         if self.givenName and not self.name:
             self.name = self.givenName
         if os.path.isfile( sourceFileOrFolder ):
-- 
2.43.0


From 3aaaa1ab466bc31484a914351441ccc6b7374051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:29 +0000
Subject: [PATCH 18/91] fix: TextFile ignored its default UTF-8 encoding when
 auto-loading

---
 BibleOrgSys/InputOutput/TextFile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/InputOutput/TextFile.py b/BibleOrgSys/InputOutput/TextFile.py
index 148c748..7b523fd 100755
--- a/BibleOrgSys/InputOutput/TextFile.py
+++ b/BibleOrgSys/InputOutput/TextFile.py
@@ -70,7 +70,7 @@ class TextFile:
             logging.critical( "TextFile.__init__ seems to have too little or too much information: {} {} {}".format( filepath, folderpath, filename ) )
 
         if autoLoad:
-            with open( self.filepath, mode='rt', encoding=encoding ) as myFile: # Automatically closes the file when done
+            with open( self.filepath, mode='rt', encoding=self.encoding ) as myFile: # Automatically closes the file when done
                 self.fileText = myFile.read()
         else: self.fileText = None
         self.changed = False
-- 
2.43.0


From 5307e8c0ae6bd7a9c01c127b93fac24fb04e8e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:29 +0000
Subject: [PATCH 19/91] fix: log files were written in the encoding of the
 locale (and could not take Bible text)

---
 BibleOrgSys/BibleOrgSysGlobals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/BibleOrgSysGlobals.py b/BibleOrgSys/BibleOrgSysGlobals.py
index 3f77e2c..3c3b569 100755
--- a/BibleOrgSys/BibleOrgSysGlobals.py
+++ b/BibleOrgSys/BibleOrgSysGlobals.py
@@ -416,7 +416,7 @@ def setupLoggingToFile( SHORT_PROGRAM_NAMEParameter:str, programVersionParameter
         dPrint( 'Verbose', DEBUGGING_THIS_MODULE, "BibleOrgSysGlobals.setBasicConfig to( {!r}, {}={}, {!r}, {!r} )".format( filepath, setLevel, LOGGING_NAME_DICT[setLevel], loggingLongFormat, loggingDateFormat ) )
     # NOTE: This call to basicConfig MUST occur BEFORE any modules make any logging calls
     #   i.e., be careful of putting executable calls at module level that might log at module load time
-    logging.basicConfig( filename=filepath, level=setLevel, format=loggingLongFormat, datefmt=loggingDateFormat )
+    logging.basicConfig( filename=filepath, encoding='utf-8', level=setLevel, format=loggingLongFormat, datefmt=loggingDateFormat )
 
     #return filepath
 # end of BibleOrgSysGlobals.setupLoggingToFile
@@ -468,7 +468,7 @@ def addLogfile( projectName:str, folderName:Path|None=None ) -> tuple[Path,loggi
             #os.remove( filepath+'.bak' )
         #os.rename( filepath, filepath+'.bak' )
 
-    projectHandler = logging.FileHandler( filepath )
+    projectHandler = logging.FileHandler( filepath, encoding='utf-8' )
     projectHandler.setFormatter( logging.Formatter( loggingShortFormat, loggingDateFormat ) )
     projectHandler.setLevel( logging.INFO )
     root = logging.getLogger()
-- 
2.43.0


From 77b0a030d9a734b1e709c6d66464b1366cb191ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:29 +0000
Subject: [PATCH 20/91] fix: ESwordBible.load queries the Bible table (not
 "BibleOrgSys.Bible", which no e-Sword database has)

---
 BibleOrgSys/Formats/ESwordBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index a035c4d..e59f14f 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -1000,7 +1000,7 @@ class ESwordBible( Bible ):
         continued = ourGlobals['haveParagraph'] = False
         haveLines = False
         while True:
-            self.cursor.execute('select Scripture from BibleOrgSys.Bible where Book=? and Chapter=? and Verse=?', (nBBB,C,V) )
+            self.cursor.execute('select Scripture from Bible where Book=? and Chapter=? and Verse=?', (nBBB,C,V) )
             try:
                 row = self.cursor.fetchone()
                 line = row[0]
-- 
2.43.0


From f25565cab4def637bbe5330e7b79380efba5874c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:06 +0000
Subject: [PATCH 21/91] fix: e-Sword and MyBible exports no longer lose the
 verse before a missing verse

---
 BibleOrgSys/Formats/ESwordBible.py      | 12 ++++++------
 BibleOrgSys/Formats/ESwordCommentary.py | 12 ++++++------
 BibleOrgSys/Formats/MyBibleBible.py     | 20 ++++++++++----------
 3 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index e59f14f..ff3754b 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -1510,12 +1510,12 @@ def createESwordBibleModule( self, outputFolder, controlDict ):
                         #if composedLine: # don't bother writing blank (unfinished?) verses
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "toESword: Writing", BBB, nBBB, C, V, marker, repr(line) )
                             #sqlObject.execute( 'INSERT INTO "Bible" VALUES(?,?,?,?)', (nBBB,C,V,composedLine) )
-                        # Stay one line behind (because paragraph indicators get appended to the previous line)
-                        if ourGlobals['lastBCV'] is not None \
-                        and ourGlobals['lastLine']: # don't bother writing blank (unfinished?) verses
-                            sqlObject.execute( 'INSERT INTO "Bible" VALUES(?,?,?,?)', \
-                                (ourGlobals['lastBCV'][0],ourGlobals['lastBCV'][1],ourGlobals['lastBCV'][2],ourGlobals['lastLine']) )
-                            lineCount += 1
+                    # Stay one line behind (because paragraph indicators get appended to the previous line)
+                    if ourGlobals['lastBCV'] is not None \
+                    and ourGlobals['lastLine']: # don't bother writing blank (unfinished?) verses
+                        sqlObject.execute( 'INSERT INTO "Bible" VALUES(?,?,?,?)', \
+                            (ourGlobals['lastBCV'][0],ourGlobals['lastBCV'][1],ourGlobals['lastBCV'][2],ourGlobals['lastLine']) )
+                        lineCount += 1
                     ourGlobals['lastLine'] = composedLine
                 ourGlobals['lastBCV'] = (nBBB,C,V)
                 V += 1
diff --git a/BibleOrgSys/Formats/ESwordCommentary.py b/BibleOrgSys/Formats/ESwordCommentary.py
index 20cbf7c..89a322d 100755
--- a/BibleOrgSys/Formats/ESwordCommentary.py
+++ b/BibleOrgSys/Formats/ESwordCommentary.py
@@ -960,12 +960,12 @@ def createESwordCommentaryModule( self, outputFolder, controlDict ):
                         #if composedLine: # don't bother writing blank (unfinished?) verses
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "toESword: Writing", BBB, nBBB, C, V, marker, repr(line) )
                             #sqlObject.execute( 'INSERT INTO "Bible" VALUES(?,?,?,?)', (nBBB,C,V,composedLine) )
-                        # Stay one line behind (because paragraph indicators get appended to the previous line)
-                        if ourGlobals['lastBCV'] is not None \
-                        and ourGlobals['lastLine']: # don't bother writing blank (unfinished?) verses
-                            sqlObject.execute( 'INSERT INTO "Bible" VALUES(?,?,?,?)', \
-                                (ourGlobals['lastBCV'][0],ourGlobals['lastBCV'][1],ourGlobals['lastBCV'][2],ourGlobals['lastLine']) )
-                            lineCount += 1
+                    # Stay one line behind (because paragraph indicators get appended to the previous line)
+                    if ourGlobals['lastBCV'] is not None \
+                    and ourGlobals['lastLine']: # don't bother writing blank (unfinished?) verses
+                        sqlObject.execute( 'INSERT INTO "Bible" VALUES(?,?,?,?)', \
+                            (ourGlobals['lastBCV'][0],ourGlobals['lastBCV'][1],ourGlobals['lastBCV'][2],ourGlobals['lastLine']) )
+                        lineCount += 1
                     ourGlobals['lastLine'] = composedLine
                 ourGlobals['lastBCV'] = (nBBB,C,V)
                 V += 1
diff --git a/BibleOrgSys/Formats/MyBibleBible.py b/BibleOrgSys/Formats/MyBibleBible.py
index acae0d7..c0688b1 100755
--- a/BibleOrgSys/Formats/MyBibleBible.py
+++ b/BibleOrgSys/Formats/MyBibleBible.py
@@ -1141,16 +1141,16 @@ def createMyBibleModule( self, outputFolder, controlDict ) -> bool:
                         #if composedLine: # don't bother writing blank (unfinished?) verses
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "toMyBible: Writing", BBB, nBBB, C, V, marker, repr(line) )
                             #sqlObject.execute( 'INSERT INTO "Bible" VALUES(?,?,?,?)', (nBBB,C,V,composedLine) )
-                        # Stay one line behind (because paragraph indicators get appended to the previous line)
-                        if ourGlobals['lastBCV'] is not None \
-                        and ourGlobals['lastLine']: # don't bother writing blank (unfinished?) verses
-                            try:
-                                sqlObject.execute( 'INSERT INTO verses VALUES(?,?,?,?)', \
-                                (ourGlobals['lastBCV'][0],ourGlobals['lastBCV'][1],ourGlobals['lastBCV'][2],ourGlobals['lastLine']) )
-                            except Exception as e:
-                                logging.critical( f"MyBible: error using {ourGlobals}: {e}" )
-                                raise e # again
-                            #lineCount += 1
+                    # Stay one line behind (because paragraph indicators get appended to the previous line)
+                    if ourGlobals['lastBCV'] is not None \
+                    and ourGlobals['lastLine']: # don't bother writing blank (unfinished?) verses
+                        try:
+                            sqlObject.execute( 'INSERT INTO verses VALUES(?,?,?,?)', \
+                            (ourGlobals['lastBCV'][0],ourGlobals['lastBCV'][1],ourGlobals['lastBCV'][2],ourGlobals['lastLine']) )
+                        except Exception as e:
+                            logging.critical( f"MyBible: error using {ourGlobals}: {e}" )
+                            raise e # again
+                        #lineCount += 1
                     ourGlobals['lastLine'] = composedLine
                 ourGlobals['lastBCV'] = (nBBB,C,V)
                 V += 1
-- 
2.43.0


From 790eb284149edd7e5c5921b74490213a8af7491e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:12 +0000
Subject: [PATCH 22/91] fix: OSIS loader helper functions refer to names that
 exist

---
 BibleOrgSys/Formats/OSISXMLBible.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index 4416b8a..354caaa 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -900,7 +900,7 @@ class OSISXMLBible( Bible ):
     # end of validateRDG
 
 
-    def validateProperName( thisBook, element, locationDescription, verseMilestone, loadErrors ):
+    def validateProperName( self, thisBook, element, locationDescription, verseMilestone, loadErrors ):
         """
         """
         location = "validateProperName: " + locationDescription
@@ -1251,7 +1251,7 @@ class OSISXMLBible( Bible ):
                 self.validateDivineName( thisBook, subelement, sublocation, verseMilestone, loadErrors )
             elif subelement.tag == OSISXMLBible.OSISNameSpace+'name':
                 sublocation = "validateCrossReferenceOrFootnote: name of " + locationDescription
-                validateProperName( thisBook, subelement, sublocation, verseMilestone, loadErrors )
+                self.validateProperName( thisBook, subelement, sublocation, verseMilestone, loadErrors )
             elif subelement.tag == OSISXMLBible.OSISNameSpace+'seg': # cross-references
                 sublocation = "validateCrossReferenceOrFootnote: seg of " + locationDescription
                 self.validateAndLoadSEG( thisBook, subelement, sublocation, verseMilestone, loadErrors ) # Also handles the tail
@@ -1331,7 +1331,7 @@ class OSISXMLBible( Bible ):
                 self.validateDivineName( thisBook, subelement, sublocation, verseMilestone, loadErrors )
             elif subelement.tag == OSISXMLBible.OSISNameSpace+'name':
                 sublocation = "validateTransChange: name of transChange of " + location
-                validateProperName( thisBook, subelement, sublocation, verseMilestone, loadErrors )
+                self.validateProperName( thisBook, subelement, sublocation, verseMilestone, loadErrors )
             elif subelement.tag == OSISXMLBible.OSISNameSpace+'note':
                 sublocation = "validateTransChange: note of transChange of " + location
                 self.validateCrossReferenceOrFootnote( thisBook, subelement, sublocation, verseMilestone, loadErrors )
@@ -1684,7 +1684,7 @@ class OSISXMLBible( Bible ):
                 if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
             elif subelement.tag == OSISXMLBible.OSISNameSpace+'verse':
                 sublocation = "validateTitle: verse of " + locationDescription
-                verseMilestone = validateVerseElement( thisBook, subelement, verseMilestone, chapterMilestone, sublocation, loadErrors )
+                verseMilestone = self.validateVerseElement( thisBook, subelement, verseMilestone, chapterMilestone, sublocation, loadErrors )
             elif subelement.tag == OSISXMLBible.OSISNameSpace+'seg':
                 sublocation = "validateTitle: verse of " + locationDescription
                 self.validateAndLoadSEG( thisBook, subelement, sublocation, verseMilestone, loadErrors )
@@ -1725,8 +1725,8 @@ class OSISXMLBible( Bible ):
                 for subelement in element:
                     BibleOrgSysGlobals.checkXMLNoSubelements( subelement, location, '4f3f', loadErrors )
                     if len(subelement):
-                        logging.error( "Unexpected {} subelements in subelement {} in {} revisionDesc".format( len(subelement), subelement.tag, osisWork ) )
-                        loadErrors.append( "Unexpected {} subelements in subelement {} in {} revisionDesc".format( len(subelement), subelement.tag, osisWork ) )
+                        logging.error( "Unexpected {} subelements in subelement {} in {} revisionDesc".format( len(subelement), subelement.tag, location ) )
+                        loadErrors.append( "Unexpected {} subelements in subelement {} in {} revisionDesc".format( len(subelement), subelement.tag, location ) )
                         if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
                     if subelement.tag == OSISXMLBible.OSISNameSpace+'date':
                         sublocation = "date of " + location
@@ -2222,8 +2222,8 @@ class OSISXMLBible( Bible ):
                 #elif attrib=='level':
                     #titleLevel = value # Not used anywhere yet :(
                 else:
-                    logging.warning( "vdv3 Unprocessed {!r} attribute ({}) in {} at {}".format( attrib, value, location, verseMilestone ) )
-                    loadErrors.append( "Unprocessed {!r} attribute ({}) in {} at {} (vdv3)".format( attrib, value, location, verseMilestone ) )
+                    logging.warning( "vdv3 Unprocessed {!r} attribute ({}) in {}".format( attrib, value, location ) )
+                    loadErrors.append( "Unprocessed {!r} attribute ({}) in {} (vdv3)".format( attrib, value, location ) )
                     if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
             #if titleSubType: assert titleSubType == 'x-preverse'
             BibleOrgSysGlobals.checkXMLNoSubelements( element, location+" at book group", 'js21', loadErrors )
@@ -2299,6 +2299,7 @@ class OSISXMLBible( Bible ):
             nonlocal BBB, USFMAbbreviation, USFMNumber #, bookResults, USFMResults
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "validateChapterElement at {} with {} and {}".format( locationDescription, chapterMilestone, verseMilestone ) )
             assert isinstance( bookList, list )
+            thisBook = bookList[-1][0] if bookList else None # the book that we're currently loading
 
             location = "validateChapterElement: " + locationDescription
             BibleOrgSysGlobals.checkXMLNoText( element, location+" at "+verseMilestone, 's2a8', loadErrors )
@@ -2371,8 +2372,8 @@ class OSISXMLBible( Bible ):
                             cmBBB = cmBBB[0]
                         if cmBBB and cmBBB != BBB: # We've started on a new book
                             #if BBB and ( len(bookResults)>20 or len(USFMResults)>20 ): # Save the previous book
-                            vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "here MAGIC", cmBBB, BBB, repr(chapterMilestone), len(thisBook._rawLines) )
-                            if BBB and len(thisBook._rawLines) > 5: # Save the previous book
+                            vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "here MAGIC", cmBBB, BBB, repr(chapterMilestone), len(thisBook._rawLines) if thisBook else 0 )
+                            if BBB and thisBook and len(thisBook._rawLines) > 5: # Save the previous book
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, verseMilestone )
                                 vPrint( 'Info', DEBUGGING_THIS_MODULE, "Saving previous {}{} book into results…".format( self.abbreviation+' ' if self.abbreviation else '', BBB ) )
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, mainDivOsisID, "results", BBB, bookResults[:10], "…" )
@@ -2837,7 +2838,7 @@ class OSISXMLBible( Bible ):
                     self.validateDivineName( thisBook, subelement, sublocation, verseMilestone, loadErrors )
                 elif subelement.tag == OSISXMLBible.OSISNameSpace+'name':
                     sublocation = "validateParagraph: name of " + locationDescription
-                    validateProperName( thisBook, subelement, sublocation, verseMilestone, loadErrors )
+                    self.validateProperName( thisBook, subelement, sublocation, verseMilestone, loadErrors )
                 elif subelement.tag == OSISXMLBible.OSISNameSpace+'seg':
                     sublocation = "validateParagraph: seg of " + locationDescription
                     self.validateAndLoadSEG( thisBook, subelement, sublocation, verseMilestone, loadErrors )
-- 
2.43.0


From 546eaa24e07a0d41f37ca025df9070e3f7900d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:51 +0000
Subject: [PATCH 23/91] fix: SwordModules look-ups use variables that exist

---
 BibleOrgSys/Formats/SwordModules.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Formats/SwordModules.py b/BibleOrgSys/Formats/SwordModules.py
index e47994c..c502054 100755
--- a/BibleOrgSys/Formats/SwordModules.py
+++ b/BibleOrgSys/Formats/SwordModules.py
@@ -727,7 +727,7 @@ class SwordModule():
                             indexString = something.decode( self.SwordModuleConfiguration.encoding )
                         except KeyError:
                             logging.warning( "Unable to properly decode {} {} {} chunk #{} {}->{}".format( self.SwordModuleConfiguration.encoding, self.SwordModuleConfiguration.name, self.SwordModuleConfiguration.modCategory, j, offset, length ) )
-                            dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  ", uncompressedChunk[:40] )
+                            dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  ", something[:40] )
                             indexString = something.decode( self.SwordModuleConfiguration.encoding, 'replace' )
                         #if len(indexString)>100: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, j, "indexString = ", indexString )
                         endbit = chunk[12+ix+1:12+ix+10+1]
@@ -1438,7 +1438,7 @@ class SwordModule():
         assert len(BBB) == 3
         assert C.isdigit()
         assert V.isdigit()
-        return self.chapterOffsets[BBB][int(c)][offsetType] + int(v)-1 # The offset type selects: [0] is OTNTOffset, [1] is OTOffset, [2] is NTOffset
+        return self.chapterOffsets[BBB][int(C)][offsetType] + int(V)-1 # The offset type selects: [0] is OTNTOffset, [1] is OTOffset, [2] is NTOffset
     # end of SwordModule.getVersifiedOffset
 
 
@@ -1683,7 +1683,7 @@ class SwordModule():
         if isinstance( rawData, list ):
             results = []
             for rawEntry in rawData:
-                results.append( self.filterToUSFM( rawEntry ) ) # recursive call
+                results.append( self.filterToUSFM( rawEntry, BBB, C, V ) ) # recursive call
             return results
 
         # This is where the real work is done
@@ -2310,6 +2310,7 @@ class SwordModules:
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "getAvailableModuleCodeDuples--modules" )
             for j, (moduleRoughName,module) in enumerate( sorted(self.modules.items()) ):
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  ", j, moduleRoughName )
+            result = []
             for moduleRoughName,module in sorted(self.modules.items()):
                 swMC = self.confs[moduleRoughName]
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(swMC.modType) )
-- 
2.43.0


From 6fde84b282c586e0a202c636d731560f3a85117a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:51 +0000
Subject: [PATCH 24/91] fix: PTX8 metadata loaders report unexpected tags
 without crashing

---
 BibleOrgSys/Formats/PTX8Bible.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/BibleOrgSys/Formats/PTX8Bible.py b/BibleOrgSys/Formats/PTX8Bible.py
index aed8913..fb5ee4a 100755
--- a/BibleOrgSys/Formats/PTX8Bible.py
+++ b/BibleOrgSys/Formats/PTX8Bible.py
@@ -1380,7 +1380,7 @@ class PTX8Bible( Bible ):
                     if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
         else:
             logging.critical( _("Unrecognised PTX8 derived translation tag: {}").format( self.XMLTree.tag ) )
-            if BibleOrgSysGlobals.strictDerivedTranslationFlag or BibleOrgSysGlobals.debugFlag: halt
+            if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag: halt
 
         try: self.filepathsNotYetLoaded.remove( derivedTranslationStatusFilepath )
         except ValueError: logging.critical( "PTX8 derived translation status file seemed unexpected: {}".format( derivedTranslationStatusFilepath ) )
@@ -1744,7 +1744,7 @@ class PTX8Bible( Bible ):
                     logging.error( _("Unprocessed {} element '{}' in {}").format( element.tag, element.text, elementLocation ) )
                     if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
         else:
-            logging.critical( _("Unrecognised PTX8 {} project Biblical terms tag: {}").format( versionName, self.XMLTree.tag ) )
+            logging.critical( _("Unrecognised PTX8 {} project Biblical terms tag: {}").format( self.name, self.XMLTree.tag ) )
             if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag: halt
 
         try: self.filepathsNotYetLoaded.remove( projectBiblicalTermsFilepath )
@@ -2066,7 +2066,7 @@ class PTX8Bible( Bible ):
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "bookStatusDict", bookStatusDict )
                 #projectProgressDict.append( bookStatusDict )
         else:
-            logging.critical( _("Unrecognised PTX8 {} project progress tag: {}").format( versionName, self.XMLTree.tag ) )
+            logging.critical( _("Unrecognised PTX8 {} project progress tag: {}").format( self.name, self.XMLTree.tag ) )
             if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag: halt
 
         try: self.filepathsNotYetLoaded.remove( projectProgressFilepath )
@@ -2200,7 +2200,7 @@ class PTX8Bible( Bible ):
                 if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag: halt
 
             try: self.filepathsNotYetLoaded.remove( printConfigFilepath )
-            except ValueError: logging.critical( "PTX8 print config file seemed unexpected: {}".format( progressFilepath ) )
+            except ValueError: logging.critical( "PTX8 print config file seemed unexpected: {}".format( printConfigFilepath ) )
 
         vPrint( 'Info', DEBUGGING_THIS_MODULE, "  Loaded {} printConfig.".format( len(printConfigDict) ) )
         vPrint( 'Never', DEBUGGING_THIS_MODULE, "\nprintConfigDict", len(printConfigDict), printConfigDict )
@@ -2632,7 +2632,7 @@ class PTX8Bible( Bible ):
                 TermRenderingsDict[Id] = termRenderingEntryDict
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "termRenderingEntryDict", termRenderingEntryDict ); halt
         else:
-            logging.critical( _("Unrecognised PTX8 {} term renderings tag: {}").format( versionName, self.XMLTree.tag ) )
+            logging.critical( _("Unrecognised PTX8 {} term renderings tag: {}").format( self.name, self.XMLTree.tag ) )
             if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag: halt
 
         try: self.filepathsNotYetLoaded.remove( renderingTermsFilepath )
-- 
2.43.0


From 75f4301f6eb678d3d8f45b2f94ef9d75e30f4571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:17 +0000
Subject: [PATCH 25/91] fix: loaders and exporters name variables that exist in
 their rarely taken branches

---
 BibleOrgSys/BibleWriter.py                        | 4 ++--
 BibleOrgSys/Formats/BCVBible.py                   | 8 ++++----
 BibleOrgSys/Formats/ForgeForSwordSearcherBible.py | 2 +-
 BibleOrgSys/Formats/OpenSongXMLBible.py           | 1 +
 BibleOrgSys/Formats/PierceOnlineBible.py          | 2 +-
 BibleOrgSys/Formats/SwordResources.py             | 6 +++---
 BibleOrgSys/Formats/VPLBible.py                   | 2 +-
 BibleOrgSys/Formats/uWOBSBible.py                 | 2 +-
 BibleOrgSys/InputOutput/USXFilenames.py           | 4 ++--
 9 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 95117ac..42c8520 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -8198,7 +8198,7 @@ class BibleWriter( InternalBible ):
                             'em':'Emphasis Text', 'bd':'Bold Text', 'it':'Italic Text', 'bdit':'Bold Italic Text', 'sc':'Small Caps Text', }
 
 
-        def setupStyles( styleFamilies ):
+        def setupStyles( document, styleFamilies ):
             """
             Defines new styles that are not in the template (yet).
 
@@ -9123,7 +9123,7 @@ class BibleWriter( InternalBible ):
             textCursor = initialTextCursor
 
             styleFamilies = document.StyleFamilies
-            setupStyles( styleFamilies )
+            setupStyles( document, styleFamilies )
 
             #pageStyles = styleFamilies.getByName( "PageStyles" )
             #defaultPageStyle = pageStyles.getByName( 'Default Style' )
diff --git a/BibleOrgSys/Formats/BCVBible.py b/BibleOrgSys/Formats/BCVBible.py
index d31fdbc..72bc2b5 100755
--- a/BibleOrgSys/Formats/BCVBible.py
+++ b/BibleOrgSys/Formats/BCVBible.py
@@ -481,14 +481,14 @@ class BCVBibleBook( BibleBook ):
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "doaddLine( {}, {} )".format( repr(originalMarker), repr(originalText) ) )
             marker, text = originalMarker, originalText.replace( '~', ' ' )
             if '\\' in text: # Check markers inside the lines
-                markerList = BibleOrgSysGlobals.BCVMarkers.getMarkerListFromText( text )
+                markerList = BibleOrgSysGlobals.loadedUSFMMarkers.getMarkerListFromText( text )
                 ix = 0
                 for insideMarker, iMIndex, nextSignificantChar, fullMarker, characterContext, endIndex, markerField in markerList: # check paragraph markers
                     if insideMarker == '\\': # it's a free-standing backspace
                         loadErrors.append( _("{} {}:{} Improper free-standing backspace character within line in \\{}: {!r}").format( self.BBB, C, V, marker, text ) )
                         logging.error( _("Improper free-standing backspace character within line after {} {}:{} in \\{}: {!r}").format( self.BBB, C, V, marker, text ) ) # Only log the first error in the line
                         self.addPriorityError( 100, C, V, _("Improper free-standing backspace character inside a line") )
-                    elif BibleOrgSysGlobals.BCVMarkers.isNewlineMarker(insideMarker): # Need to split the line for everything else to work properly
+                    elif BibleOrgSysGlobals.loadedUSFMMarkers.isNewlineMarker(insideMarker): # Need to split the line for everything else to work properly
                         if ix==0:
                             loadErrors.append( _("{} {}:{} NewLine marker {!r} shouldn't appear within line in \\{}: {!r}").format( self.BBB, C, V, insideMarker, marker, text ) )
                             logging.error( _("NewLine marker {!r} shouldn't appear within line after {} {}:{} in \\{}: {!r}").format( insideMarker, self.BBB, C, V, marker, text ) ) # Only log the first error in the line
@@ -526,7 +526,7 @@ class BCVBibleBook( BibleBook ):
                 for line in myFile:
                     lineCount += 1
                     if lineCount==1 and line and line[0]==BibleOrgSysGlobals.BOM:
-                        logging.info( "loadBCVBibleBook: Detected Unicode Byte Order Marker (BOM) in {}".format( metadataFilepath ) )
+                        logging.info( "loadBCVBibleBook: Detected Unicode Byte Order Marker (BOM) in {}".format( filename ) )
                         line = line[1:] # Remove the Byte Order Marker (BOM)
                     if line and line[-1]=='\n': line = line[:-1] # Remove trailing newline character
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, CV, "line", line )
@@ -554,7 +554,7 @@ class BCVBibleBook( BibleBook ):
                     else:
                         if originalMarker is None: originalMarker = marker
                         if text is None: text = ''
-                        adjText, cleanText, extras = self.processLineFix( C, V, originalMarker, text, fixErrors ) # separate out the notes (footnotes and cross-references)
+                        adjText, cleanText, extras = self._processLineFix( C, V, originalMarker, text, fixErrors ) # separate out the notes (footnotes and cross-references)
                     self._processedLines.append( InternalBibleEntry(marker, originalMarker, adjText, cleanText, extras, text) )
 
             #if loadErrors: self.checkResultsDictionary['Load Errors'] = loadErrors
diff --git a/BibleOrgSys/Formats/ForgeForSwordSearcherBible.py b/BibleOrgSys/Formats/ForgeForSwordSearcherBible.py
index a76fb92..9be9bc6 100755
--- a/BibleOrgSys/Formats/ForgeForSwordSearcherBible.py
+++ b/BibleOrgSys/Formats/ForgeForSwordSearcherBible.py
@@ -280,7 +280,7 @@ class ForgeForSwordSearcherBible( Bible ):
                         if BibleOrgSysGlobals.debugFlag:
                             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "First line got type {!r} match from {!r}".format( match.group(0), line ) )
                     else:
-                        vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "ForgeForSwordSearcherBible.load: (unexpected) first line was {!r} in {}".format( firstLine, thisFilename ) )
+                        vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "ForgeForSwordSearcherBible.load: (unexpected) first line was {!r} in {}".format( line, self.sourceFilepath ) )
                         if BibleOrgSysGlobals.debugFlag and DEBUGGING_THIS_MODULE: halt
                         continue
 
diff --git a/BibleOrgSys/Formats/OpenSongXMLBible.py b/BibleOrgSys/Formats/OpenSongXMLBible.py
index 1089419..08faa59 100755
--- a/BibleOrgSys/Formats/OpenSongXMLBible.py
+++ b/BibleOrgSys/Formats/OpenSongXMLBible.py
@@ -82,6 +82,7 @@ from BibleOrgSys.BibleOrgSysGlobals import fnPrint, vPrint, dPrint
 from BibleOrgSys.Internals.InternalBibleInternals import BOS_CUSTOM_NESTING_MARKERS
 from BibleOrgSys.Reference.BibleOrganisationalSystems import BibleOrganisationalSystem
 from BibleOrgSys.Reference.BibleBooksNames import BibleBooksNamesSystems
+from BibleOrgSys.Reference.BibleReferences import BibleReferenceList
 from BibleOrgSys.Bible import Bible, BibleBook
 from BibleOrgSys.Reference.USFM3Markers import OFTEN_IGNORED_USFM_HEADER_MARKERS, USFM_ALL_INTRODUCTION_MARKERS, \
                             USFM_PRECHAPTER_MARKERS, USFM_BIBLE_PARAGRAPH_MARKERS
diff --git a/BibleOrgSys/Formats/PierceOnlineBible.py b/BibleOrgSys/Formats/PierceOnlineBible.py
index a62c488..e796e40 100755
--- a/BibleOrgSys/Formats/PierceOnlineBible.py
+++ b/BibleOrgSys/Formats/PierceOnlineBible.py
@@ -438,7 +438,7 @@ class PierceOnlineBible( Bible ):
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, '     ', strings2 )
             if DEBUGGING_THIS_MODULE:
                 ix = -1
-                for j, word in enumerate( trings2 ):
+                for j, word in enumerate( strings2 ):
                     if word in ( 'Genesis', 'In', 'The', 'God', ):
                         vPrint( 'Quiet', DEBUGGING_THIS_MODULE, '      {!r} {}={:04x}'.format( word, j, j ) )
 
diff --git a/BibleOrgSys/Formats/SwordResources.py b/BibleOrgSys/Formats/SwordResources.py
index 99245c4..ad71bd1 100755
--- a/BibleOrgSys/Formats/SwordResources.py
+++ b/BibleOrgSys/Formats/SwordResources.py
@@ -1261,8 +1261,8 @@ class SwordInterface():
             logger.critical( _("Unable to load {!r} module -- not known by Sword").format( moduleAbbreviation ) )
             return
 
-        self.triedLoadingBook[BBB] = True
-        self.bookNeedsReloading[BBB] = False
+        BibleObject.triedLoadingBook[BBB] = True
+        BibleObject.bookNeedsReloading[BBB] = False
 
         # Create the new book
         if BibleOrgSysGlobals.verbosityLevel > 2:  vPrint( 'Quiet', DEBUGGING_THIS_MODULE, '  Loading {} {}…'.format( moduleAbbreviation, BBB ) )
@@ -1359,7 +1359,7 @@ class SwordInterface():
                         return
 
             if haveText: # Save the book
-                vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "Saving", moduleAbbreviation, currentBBB, bookCount )
+                vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "Saving", moduleAbbreviation, BBB )
                 BibleObject.stashBook( thisBook )
 
 
diff --git a/BibleOrgSys/Formats/VPLBible.py b/BibleOrgSys/Formats/VPLBible.py
index 684980e..e4b1352 100755
--- a/BibleOrgSys/Formats/VPLBible.py
+++ b/BibleOrgSys/Formats/VPLBible.py
@@ -754,7 +754,7 @@ class VPLBible( Bible ):
                             thisBook.addLine( 'p', '' )
                             verseText = verseText[1:].lstrip()
 
-                        dPrint( 'Quiet', DEBUGGING_THIS_MODULE, '{} {}:{} = {!r}'.format( BBB, chapterNumberString, verseNumberString, vText ) )
+                        dPrint( 'Quiet', DEBUGGING_THIS_MODULE, '{} {}:{} = {!r}'.format( BBB, chapterNumberString, verseNumberString, verseText ) )
                         thisBook.addLine( 'v', f'{verseNumberString} {verseText}' )
                         lastVerseText = verseText
                         lastVerseNumber = verseNumber
diff --git a/BibleOrgSys/Formats/uWOBSBible.py b/BibleOrgSys/Formats/uWOBSBible.py
index 701bfcd..a002464 100755
--- a/BibleOrgSys/Formats/uWOBSBible.py
+++ b/BibleOrgSys/Formats/uWOBSBible.py
@@ -420,7 +420,7 @@ class uWOBSBibleBook( BibleBook ):
                     line = line.rstrip( '\n\r' )
                     lineCount += 1
                     if lineCount==1 and line and line[0]==BibleOrgSysGlobals.BOM:
-                        logging.info( "loaduWOBSBibleBook: Detected Unicode Byte Order Marker (BOM) in {}".format( metadataFilepath ) )
+                        logging.info( "loaduWOBSBibleBook: Detected Unicode Byte Order Marker (BOM) in {}".format( mdFilepath ) )
                         line = line[1:] # Remove the Byte Order Marker (BOM)
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, state, lineCount, "line", line )
                     if lineCount == 1: # Title line
diff --git a/BibleOrgSys/InputOutput/USXFilenames.py b/BibleOrgSys/InputOutput/USXFilenames.py
index c749611..b615e79 100755
--- a/BibleOrgSys/InputOutput/USXFilenames.py
+++ b/BibleOrgSys/InputOutput/USXFilenames.py
@@ -273,7 +273,7 @@ class USXFilenames:
                     if not firstLines or len(firstLines)<3: continue
                     if not ( firstLines[0].startswith( '<?xml version="1.0"' ) or firstLines[0].startswith( "<?xml version='1.0'" ) ) \
                     and not ( firstLines[0].startswith( '\ufeff<?xml version="1.0"' ) or firstLines[0].startswith( "\ufeff<?xml version='1.0'" ) ): # same but with BOM
-                        vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "USXB (unexpected) first line was {!r} in {}".format( firstLines, thisFilename ) )
+                        vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "USXB (unexpected) first line was {!r} in {}".format( firstLines, possibleFilename ) )
                     if '<usx' not in firstLines[0] and '<usx' not in firstLines[1]:
                         continue # so it doesn't get added
                 resultList.append( (BBB, possibleFilename,) )
@@ -311,7 +311,7 @@ class USXFilenames:
                                 continue
                             if not ( firstLines[0].startswith( '<?xml version="1.0"' ) or firstLines[0].startswith( "<?xml version='1.0'" ) ) \
                             and not ( firstLines[0].startswith( '\ufeff<?xml version="1.0"' ) or firstLines[0].startswith( "\ufeff<?xml version='1.0'" ) ): # same but with BOM
-                                vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "USXB (unexpected) first line was {!r} in {}".format( firstLines, thisFilename ) )
+                                vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "USXB (unexpected) first line was {!r} in {}".format( firstLines, possibleFilename ) )
                             if '<usx' not in firstLines[0] and '<usx' not in firstLines[1]:
                                 continue # so it doesn't get added
                         self.doListAppend( BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromUSFMAbbreviation( USFMBookCode ), possibleFilename, resultList, "getPossibleFilenameTuplesExt" )
-- 
2.43.0


From 38c4c595b0db4317f34fa677dd04b7d7697eb2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:27 +0000
Subject: [PATCH 26/91] fix: OSIS verse keys with several verses can be parsed

---
 BibleOrgSys/Reference/VerseReferences.py | 38 +++++++++++++++---------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index 7ca2e7b..05e542d 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -513,7 +513,7 @@ class SimpleVersesKey():
             C1, V1, S1 = match.group(2), match.group(3), match.group(4) if match.group(4) else ''
             C2, V2, S2 = match.group(5), match.group(6), match.group(7) if match.group(7) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
             self.verseKeysList = [SimpleVerseKey(BBB,C1,V1,S1), SimpleVerseKey(BBB,C2,V2,S2)]
@@ -528,7 +528,7 @@ class SimpleVersesKey():
             V2, S2 = match.group(5), match.group(6) if match.group(6) else ''
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "SDADQ", referenceString )
@@ -546,7 +546,7 @@ class SimpleVersesKey():
             C2, V2, S2 = match.group(5), match.group(6), match.group(7) if match.group(7) else ''
             C3, V3, S3 = match.group(8), match.group(9), match.group(10) if match.group(10) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
             self.verseKeysList = [SimpleVerseKey(BBB,C1,V1,S1), SimpleVerseKey(BBB,C2,V2,S2), SimpleVerseKey(BBB,C3,V3,S3)]
@@ -562,7 +562,7 @@ class SimpleVersesKey():
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
             V4, S4 = match.group(9), match.group(10) if match.group(10) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "CCVSD", referenceString )
@@ -584,7 +584,7 @@ class SimpleVersesKey():
             V4, S4 = match.group(9), match.group(10) if match.group(10) else ''
             V5, S5 = match.group(11), match.group(12) if match.group(12) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 assert int(V2)>int(V1)+1 or S2!=S1
@@ -607,7 +607,7 @@ class SimpleVersesKey():
             V5, S5 = match.group(11), match.group(12) if match.group(12) else ''
             V6, S6 = match.group(12), match.group(13) if match.group(13) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 assert int(V2)>int(V1)+1 or S2!=S1
@@ -632,7 +632,7 @@ class SimpleVersesKey():
             V6, S6 = match.group(13), match.group(14) if match.group(14) else ''
             V7, S7 = match.group(15), match.group(16) if match.group(16) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 assert int(V2)>int(V1)+1 or S2!=S1
@@ -660,7 +660,7 @@ class SimpleVersesKey():
             V7, S7 = match.group(14), match.group(15) if match.group(15) else ''
             V8, S8 = match.group(16), match.group(17) if match.group(17) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 assert int(V2)>int(V1)+1 or S2!=S1
@@ -690,7 +690,7 @@ class SimpleVersesKey():
             V8, S8 = match.group(16), match.group(17) if match.group(17) else ''
             V9, S9 = match.group(18), match.group(19) if match.group(19) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 assert int(V2)>int(V1)+1 or S2!=S1
@@ -727,6 +727,7 @@ class SimpleVersesKey():
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Matched", match.start(), match.end() )
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(match.group(0)), repr(match.group(1)), repr(match.group(2)), repr(match.group(3)), repr(match.group(4)) )
             bk, C = match.group(1), match.group(2)
+            BBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromOSISAbbreviation( bk )
             V1, S1 = match.group(3), match.group(4) if match.group(4) else ''
             V2, S2 = match.group(5), match.group(6) if match.group(6) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
@@ -742,10 +743,11 @@ class SimpleVersesKey():
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Matched", match.start(), match.end() )
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(match.group(0)), repr(match.group(1)), repr(match.group(2)), repr(match.group(3)), repr(match.group(4)) )
             bk = match.group(1)
+            BBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromOSISAbbreviation( bk )
             C1, V1, S1 = match.group(2), match.group(3), match.group(4) if match.group(4) else ''
             C2, V2, S2 = match.group(5), match.group(6), match.group(7) if match.group(7) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
             self.verseKeysList = [SimpleVerseKey(BBB,C1,V1,S1), SimpleVerseKey(BBB,C2,V2,S2)]
@@ -756,11 +758,12 @@ class SimpleVersesKey():
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Matched", match.start(), match.end() )
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(match.group(0)), repr(match.group(1)), repr(match.group(2)), repr(match.group(3)), repr(match.group(4)) )
             bk, C = match.group(1), match.group(2)
+            BBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromOSISAbbreviation( bk )
             V1, S1 = match.group(3), match.group(4) if match.group(4) else ''
             V2, S2 = match.group(5), match.group(6) if match.group(6) else ''
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 assert int(V2)>int(V1)+1 or S2!=S1
@@ -772,11 +775,12 @@ class SimpleVersesKey():
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Matched", match.start(), match.end() )
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(match.group(0)), repr(match.group(1)), repr(match.group(2)), repr(match.group(3)), repr(match.group(4)) )
             bk = match.group(1)
+            BBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromOSISAbbreviation( bk )
             C1, V1, S1 = match.group(2), match.group(3), match.group(4) if match.group(4) else ''
             C2, V2, S2 = match.group(5), match.group(6), match.group(7) if match.group(7) else ''
             C3, V3, S3 = match.group(8), match.group(9), match.group(10) if match.group(10) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
             self.keyType = '3CV'
@@ -929,7 +933,7 @@ class VerseRangeKey():
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(match.group(0)), repr(match.group(1)), repr(match.group(2)), repr(match.group(3)), repr(match.group(4)), repr(match.group(5)), repr(match.group(6)) )
             BBB, C = match.group(1), match.group(2)
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "VerseRangeKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "VerseRangeKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
             self.rangeStart = SimpleVerseKey( BBB, C, '1' )
@@ -957,6 +961,7 @@ class VerseRangeKey():
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Matched", match.start(), match.end() )
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(match.group(0)), repr(match.group(1)), repr(match.group(2)), repr(match.group(3)), repr(match.group(4)), repr(match.group(5)), repr(match.group(6)) )
             bk, C = match.group(1), match.group(2)
+            BBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromOSISAbbreviation( bk )
             V1, S1 = match.group(3), match.group(4) if match.group(4) else ''
             V2, S2 = match.group(5), match.group(6) if match.group(6) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
@@ -980,6 +985,7 @@ class VerseRangeKey():
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Matched", match.start(), match.end() )
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(match.group(0)), repr(match.group(1)), repr(match.group(2)), repr(match.group(3)), repr(match.group(4)), repr(match.group(5)), repr(match.group(6)) )
             bk = match.group(1)
+            BBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromOSISAbbreviation( bk )
             C1, V1, S1 = match.group(2), match.group(3), match.group(4) if match.group(4) else ''
             C2, V2, S2 = match.group(5), match.group(6), match.group(7) if match.group(7) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
@@ -1005,8 +1011,9 @@ class VerseRangeKey():
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Matched", match.start(), match.end() )
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(match.group(0)), repr(match.group(1)), repr(match.group(2)), repr(match.group(3)), repr(match.group(4)), repr(match.group(5)), repr(match.group(6)) )
             bk, C = match.group(1), match.group(2)
+            BBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromOSISAbbreviation( bk )
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
-                logging.error( "VerseRangeKey: Invalid {!r} book code".format( self.BBB ) )
+                logging.error( "VerseRangeKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
             self.rangeStart = SimpleVerseKey( BBB, C, '1' )
@@ -1645,6 +1652,7 @@ class FlexibleVersesKey():
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Matched", match.start(), match.end() )
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(match.group(0)), repr(match.group(1)), repr(match.group(2)), repr(match.group(3)), repr(match.group(4)), repr(match.group(5)), repr(match.group(6)) )
             bk, C = match.group(1), match.group(2)
+            BBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromOSISAbbreviation( bk )
             V1, S1 = match.group(3), match.group(4) if match.group(4) else ''
             V2, S2 = match.group(5), match.group(6) if match.group(6) else ''
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
@@ -1664,6 +1672,7 @@ class FlexibleVersesKey():
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Matched", match.start(), match.end() )
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(match.group(0)), repr(match.group(1)), repr(match.group(2)), repr(match.group(3)), repr(match.group(4)), repr(match.group(5)), repr(match.group(6)) )
             bk, C = match.group(1), match.group(2)
+            BBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromOSISAbbreviation( bk )
             V1, S1 = match.group(3), match.group(4) if match.group(4) else ''
             V2, S2 = match.group(5), match.group(6) if match.group(6) else ''
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
@@ -1683,6 +1692,7 @@ class FlexibleVersesKey():
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Matched", match.start(), match.end() )
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(match.group(0)), repr(match.group(1)), repr(match.group(2)), repr(match.group(3)), repr(match.group(4)), repr(match.group(5)), repr(match.group(6)) )
             bk, C = match.group(1), match.group(2)
+            BBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromOSISAbbreviation( bk )
             V1, S1 = match.group(3), match.group(4) if match.group(4) else ''
             V2, S2 = match.group(5), match.group(6) if match.group(6) else ''
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
-- 
2.43.0


From 06da0d000c8fbea31a5053b1bdbca462ca00782a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:03 +0000
Subject: [PATCH 27/91] fix: OSIS reference patterns are built from pattern
 strings, not compiled patterns

---
 BibleOrgSys/Reference/VerseReferences.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index 05e542d..a9ca91d 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -163,10 +163,10 @@ BCVS_RANGES3_RE = re.compile( '^{}-{},{}-{},{}-{}$'.format( BCVS_RE, VS_RE, VS_R
 BCVS_RANGES4_RE = re.compile( '^{}-{},{}-{},{}-{},{}-{}$'.format( BCVS_RE, VS_RE, VS_RE, VS_RE, VS_RE, VS_RE, VS_RE, VS_RE ) )
 
 # OSIS
-OSIS_BOOK_RE = re.compile( '([1-5A-EG-JL-PRSTVWZ][BCEJKMPSTa-ehimoprsuxz](?:[AJMa-eghik-pr-v](?:[DEPacdeghklmnrstuvz](?:[Gachnrsz](?:[nrst][ah]?)?)?)?)?)' ) # Finds OSIS book codes
-OSIS_C_RE = re.compile( '([1-9][0-9]?|[1][0-9][0-9])' ) #  Chapter numbers 1..199
-OSIS_V_RE = re.compile( '([1-9][0-9]?|[1][0-9][0-9])' ) #  Verse numbers 1..199
-OSIS_S_RE = re.compile( '([a-f]?)' )
+OSIS_BOOK_RE = '([1-5A-EG-JL-PRSTVWZ][BCEJKMPSTa-ehimoprsuxz](?:[AJMa-eghik-pr-v](?:[DEPacdeghklmnrstuvz](?:[Gachnrsz](?:[nrst][ah]?)?)?)?)?)' # Finds OSIS book codes
+OSIS_C_RE = '([1-9][0-9]?|[1][0-9][0-9])' #  Chapter numbers 1..199
+OSIS_V_RE = '([1-9][0-9]?|[1][0-9][0-9])' #  Verse numbers 1..199
+OSIS_S_RE = '([a-f]?)'
 # Derived REs
 OSIS_VS_RE = '{}(?:!{})?'.format( OSIS_V_RE, OSIS_S_RE )
 OSIS_CVS_RE = r'{}\.{}'.format( OSIS_C_RE, OSIS_VS_RE )
-- 
2.43.0


From 766a5351add5c4a6872ca0cdf7a6d0448535492d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:03 +0000
Subject: [PATCH 28/91] fix: references with eight or nine verses take each
 verse from its own group

---
 BibleOrgSys/Reference/VerseReferences.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index a9ca91d..a4914ef 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -656,9 +656,9 @@ class SimpleVersesKey():
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
             V4, S4 = match.group(9), match.group(10) if match.group(10) else ''
             V5, S5 = match.group(11), match.group(12) if match.group(12) else ''
-            V6, S6 = match.group(12), match.group(13) if match.group(13) else ''
-            V7, S7 = match.group(14), match.group(15) if match.group(15) else ''
-            V8, S8 = match.group(16), match.group(17) if match.group(17) else ''
+            V6, S6 = match.group(13), match.group(14) if match.group(14) else ''
+            V7, S7 = match.group(15), match.group(16) if match.group(16) else ''
+            V8, S8 = match.group(17), match.group(18) if match.group(18) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
                 logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
@@ -685,10 +685,10 @@ class SimpleVersesKey():
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
             V4, S4 = match.group(9), match.group(10) if match.group(10) else ''
             V5, S5 = match.group(11), match.group(12) if match.group(12) else ''
-            V6, S6 = match.group(12), match.group(13) if match.group(13) else ''
-            V7, S7 = match.group(14), match.group(15) if match.group(15) else ''
-            V8, S8 = match.group(16), match.group(17) if match.group(17) else ''
-            V9, S9 = match.group(18), match.group(19) if match.group(19) else ''
+            V6, S6 = match.group(13), match.group(14) if match.group(14) else ''
+            V7, S7 = match.group(15), match.group(16) if match.group(16) else ''
+            V8, S8 = match.group(17), match.group(18) if match.group(18) else ''
+            V9, S9 = match.group(19), match.group(20) if match.group(20) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
                 logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
-- 
2.43.0


From 1962719fe01bb810c55983fccda93054b2eb3b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 29/91] fix: OSIS verse keys record the verses that they parsed

---
 BibleOrgSys/Reference/VerseReferences.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index a4914ef..a88f359 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -768,6 +768,7 @@ class SimpleVersesKey():
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 assert int(V2)>int(V1)+1 or S2!=S1
                 assert int(V3)>int(V2)+1 or S3!=S2
+            self.verseKeysList = [SimpleVerseKey(BBB,C,V1,S1), SimpleVerseKey(BBB,C,V2,S2), SimpleVerseKey(BBB,C,V3,S3)]
             self.keyType = '3V'
             return True
         match = re.search( OSIS_BCVS3C_RE, referenceString )
@@ -783,6 +784,7 @@ class SimpleVersesKey():
                 logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
+            self.verseKeysList = [SimpleVerseKey(BBB,C1,V1,S1), SimpleVerseKey(BBB,C2,V2,S2), SimpleVerseKey(BBB,C3,V3,S3)]
             self.keyType = '3CV'
             return True
         # else:
@@ -1629,19 +1631,19 @@ class FlexibleVersesKey():
         """
         fnPrint( DEBUGGING_THIS_MODULE, "parseOSISString( {!r} )".format( referenceString ) )
         try:
-            resultKey = SimpleVerseKey( referenceString, ignoreParseErrors=True )
+            resultKey = SimpleVerseKey( referenceString, OSIS=True, ignoreParseErrors=True )
             self.verseKeyObjectList.append( resultKey )
             #self.keyType = 'RESULT'
             return True
         except TypeError: pass
         try:
-            resultKey = SimpleVersesKey( referenceString, ignoreParseErrors=True )
+            resultKey = SimpleVersesKey( referenceString, OSIS=True, ignoreParseErrors=True )
             self.verseKeyObjectList.append( resultKey )
             #self.keyType = 'RESULT'
             return True
         except TypeError: pass
         try:
-            resultKey = VerseRangeKey( referenceString, ignoreParseErrors=True )
+            resultKey = VerseRangeKey( referenceString, OSIS=True, ignoreParseErrors=True )
             self.verseKeyObjectList.append( resultKey )
             #self.keyType = 'RESULT'
             return True
-- 
2.43.0


From 378069f1c20f0cd8227f254724e259ee53268fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:35 +0000
Subject: [PATCH 30/91] fix: reference loaders and checkers name variables that
 exist in their error branches

---
 BibleOrgSys/Internals/InternalBibleIndexes.py          |  2 +-
 BibleOrgSys/Misc/CompareBibles.py                      |  4 ++--
 BibleOrgSys/OriginalLanguages/BibleLexicon.py          |  2 +-
 BibleOrgSys/Reference/BibleReferences.py               |  6 +++---
 BibleOrgSys/Reference/BibleVersificationSystems.py     |  4 ++--
 .../Reference/Converters/BibleBooksNamesConverter.py   |  3 ++-
 .../Converters/BiblePunctuationSystemsConverter.py     | 10 +++++-----
 .../Reference/Converters/USFM2MarkersConverter.py      |  2 +-
 .../Reference/Converters/USFM3MarkersConverter.py      |  2 +-
 BibleOrgSys/Reference/LDML.py                          |  4 ++--
 10 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleIndexes.py b/BibleOrgSys/Internals/InternalBibleIndexes.py
index fae2409..25bcb3d 100755
--- a/BibleOrgSys/Internals/InternalBibleIndexes.py
+++ b/BibleOrgSys/Internals/InternalBibleIndexes.py
@@ -997,7 +997,7 @@ class InternalBibleBookSectionIndexEntry:
 
 
     def __len__( self ):
-        return len(__slots__)
+        return len(self.__slots__)
     def __getitem__( self, keyIndex ):
         if isinstance( keyIndex, slice ): # Get the start, stop, and step from the slice
             cannot_handle_slice_yet # not done yet
diff --git a/BibleOrgSys/Misc/CompareBibles.py b/BibleOrgSys/Misc/CompareBibles.py
index 3e44adc..cba8689 100755
--- a/BibleOrgSys/Misc/CompareBibles.py
+++ b/BibleOrgSys/Misc/CompareBibles.py
@@ -718,7 +718,7 @@ def segmentizeLine( line:str, segmentEndPunctuation:str='.?!;:' ) -> list[list[s
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "not alnum", repr(rawWord), repr(word) )
                 if len(word) > 1:
                     if BibleOrgSysGlobals.debugFlag and DEBUGGING_THIS_MODULE:
-                        vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "segmentizeLine: {} {}:{} ".format( self.BBB, C, V ) \
+                        vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "segmentizeLine: " \
                                             + _("Have unexpected character starting word {!r}").format( word ) )
                     word = word[1:]
             if word: # There's still some characters remaining after all that stripping
@@ -727,7 +727,7 @@ def segmentizeLine( line:str, segmentEndPunctuation:str='.?!;:' ) -> list[list[s
                     for k,char in enumerate(word):
                         if not char.isalnum() and (k==0 or k==len(word)-1 or char not in BibleOrgSysGlobals.MEDIAL_WORD_PUNCT_CHARS):
                             if BibleOrgSysGlobals.debugFlag and DEBUGGING_THIS_MODULE:
-                                vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "segmentizeLine: {} {}:{} ".format( self.BBB, C, V ) + _("Have unexpected {!r} in word {!r}").format( char, word ) )
+                                vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "segmentizeLine: " + _("Have unexpected {!r} in word {!r}").format( char, word ) )
                 lcWord = word.lower()
                 isAReferenceOrNumber = True
                 for char in word:
diff --git a/BibleOrgSys/OriginalLanguages/BibleLexicon.py b/BibleOrgSys/OriginalLanguages/BibleLexicon.py
index 9081fb6..a87d440 100755
--- a/BibleOrgSys/OriginalLanguages/BibleLexicon.py
+++ b/BibleOrgSys/OriginalLanguages/BibleLexicon.py
@@ -292,7 +292,7 @@ class BibleLexicon:
             or a ValueError (not Hebrew) or KeyError
         """
         if key.startswith( 'H' ):
-            return self.hIndex.getBrDrBrCodeFromHebrewStrongsNumber( key )
+            return self.hLexicon.hlix.getBrDrBrCodeFromHebrewStrongsNumber( key )
         else: raise ValueError( f"getBrDrBrCodeFromHebrewStrongsNumber only works for Hebrew (Strongs numbers beginning with 'H', not {key=})" )
     # end of BibleLexiconIndex.getBrDrBrCodeFromHebrewStrongsNumber
 
diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index 887de88..d7d579e 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -1652,11 +1652,11 @@ class BibleAnchorReference:
                     temp += char
                 else:
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Char is {!r}, Temp is {!r}".format(char,temp) )
-                    if char in self.chapterVerseSeparators and temp and temp.isdigit(): # Assume it's a follow on chapter number
+                    if char in self.punctuationDict['chapterVerseSeparator'] and temp and temp.isdigit(): # Assume it's a follow on chapter number
                         C = temp
                         status = 1 # Now get the verse number
                     else:
-                        if bookNameOrAbbreviation: logging.error( _("Unable to deduce chapter or book name from {!r} in Bible reference {!r}{}").format( temp, anchorString, '' if location is None else " at {}".format(location) ) )
+                        if temp: logging.error( _("Unable to deduce chapter or book name from {!r} in Bible reference {!r}{}").format( temp, anchorString, '' if location is None else " at {}".format(location) ) )
                         else: logging.error( _("Unexpected {!r} character when getting chapter or book name at position {} in Bible reference {!r}{}").format( char, nnn, anchorString, '' if location is None else " at {}".format(location) ) )
                         haveErrors = True
                 continue
@@ -1672,7 +1672,7 @@ class BibleAnchorReference:
                     status = 0 # done
                 elif char.isalnum():
                     X += char
-                elif X and char in self.chapterVerseSeparators: # This must have been a chapter range
+                elif X and char in self.punctuationDict['chapterVerseSeparator']: # This must have been a chapter range
                     C = X
                     V = S = ''
                     status = 5
diff --git a/BibleOrgSys/Reference/BibleVersificationSystems.py b/BibleOrgSys/Reference/BibleVersificationSystems.py
index 6a7c289..a0f5e72 100755
--- a/BibleOrgSys/Reference/BibleVersificationSystems.py
+++ b/BibleOrgSys/Reference/BibleVersificationSystems.py
@@ -154,8 +154,8 @@ class BibleVersificationSystems:
             from BibleOrgSys.Reference.Converters.BibleVersificationSystemsConverter import BibleVersificationSystemsConverter
             if XMLFolder is not None:
                 logging.warning( _("Bible versification systems are already loaded -- your given filepath of {!r} was ignored").format(XMLFolder) )
-            bvsc = BibleVersificationSystemsConverter( XMLFolder )
-            bvsc.loadAndValidate( XMLFileOrFilepath ) # Load the XML (if not done already)
+            bvsc = BibleVersificationSystemsConverter()
+            bvsc.loadSystems( XMLFolder ) # Load the XML (if not done already)
             self.__DataDict = bvsc.importDataToPython() # Get the various dictionaries organised for quick lookup
         return self # So this command can be chained after the object creation
         #     # See if we can load from the pickle file (faster than loading from the XML)
diff --git a/BibleOrgSys/Reference/Converters/BibleBooksNamesConverter.py b/BibleOrgSys/Reference/Converters/BibleBooksNamesConverter.py
index 879dac4..ecec58f 100755
--- a/BibleOrgSys/Reference/Converters/BibleBooksNamesConverter.py
+++ b/BibleOrgSys/Reference/Converters/BibleBooksNamesConverter.py
@@ -281,6 +281,7 @@ class BibleBooksNamesConverter:
         self.importDataToPython()
         assert self.__BookNamesSystemsDict
         if self.__expandedInputSystems: return # No need to do this again
+        from BibleOrgSys.Reference.BibleBooksNames import expandBibleNamesInputs
 
         if bookList is not None:
             for BBB in bookList: # Just check this list is valid
@@ -290,7 +291,7 @@ class BibleBooksNamesConverter:
         for systemName in self.__BookNamesSystemsDict:
             vPrint( 'Info', DEBUGGING_THIS_MODULE, _("  Expanding {}…").format( systemName ) )
             divisionsNamesDict, booknameLeadersDict, bookNamesDict = self.__BookNamesSystemsDict[systemName]
-            self.__expandedInputSystems[systemName] = self.expandBibleNamesInputs( systemName, divisionsNamesDict, booknameLeadersDict, bookNamesDict, bookList )
+            self.__expandedInputSystems[systemName] = expandBibleNamesInputs( systemName, divisionsNamesDict, booknameLeadersDict, bookNamesDict, bookList )
     # end of expandInputs
 
     def importDataToPython( self ):
diff --git a/BibleOrgSys/Reference/Converters/BiblePunctuationSystemsConverter.py b/BibleOrgSys/Reference/Converters/BiblePunctuationSystemsConverter.py
index 2d633c9..8b8e63e 100755
--- a/BibleOrgSys/Reference/Converters/BiblePunctuationSystemsConverter.py
+++ b/BibleOrgSys/Reference/Converters/BiblePunctuationSystemsConverter.py
@@ -192,27 +192,27 @@ class BiblePunctuationSystemsConverter:
                 # Check compulsory elements
                 for elementName in self.compulsoryElements:
                     if element.find( elementName ) is None:
-                        logging.error( _("Compulsory {!r} element is missing in record with ID {!r} (record {})").format( elementName, ID, k ) )
+                        logging.error( _("Compulsory {!r} element is missing in record {}").format( elementName, k ) )
                     if not element.find( elementName ).text:
-                        logging.warning( _("Compulsory {!r} element is blank in record with ID {!r} (record {})").format( elementName, ID, k ) )
+                        logging.warning( _("Compulsory {!r} element is blank in record {}").format( elementName, k ) )
 
                 # Check optional elements
                 for elementName in self.optionalElements:
                     if element.find( elementName ) is not None:
                         if not element.find( elementName ).text:
-                            logging.warning( _("Optional {!r} element is blank in record with ID {!r} (record {})").format( elementName, ID, k ) )
+                            logging.warning( _("Optional {!r} element is blank in record {}").format( elementName, k ) )
 
                 # Check for unexpected additional elements
                 for subelement in element:
                     if subelement.tag not in self.compulsoryElements and subelement.tag not in self.optionalElements:
-                        logging.warning( _("Additional {!r} element ({!r}) found in record with ID {!r} (record {})").format( subelement.tag, subelement.text, ID, k ) )
+                        logging.warning( _("Additional {!r} element ({!r}) found in record {}").format( subelement.tag, subelement.text, k ) )
 
                 # Check the elements that must contain unique information (in that particular element -- doesn't check across different elements)
                 for elementName in self.uniqueElements:
                     if element.find( elementName ) is not None:
                         text = element.find( elementName ).text
                         if text in uniqueDict["Element_"+elementName]:
-                            logging.error( _("Found {!r} data repeated in {!r} element in record with ID {!r} (record {})").format( text, elementName, ID, k ) )
+                            logging.error( _("Found {!r} data repeated in {!r} element in record {}").format( text, elementName, k ) )
                         uniqueDict["Element_"+elementName].append( text )
             else:
                 logging.warning( _("Unexpected element: {} in record {}").format( element.tag, k ) )
diff --git a/BibleOrgSys/Reference/Converters/USFM2MarkersConverter.py b/BibleOrgSys/Reference/Converters/USFM2MarkersConverter.py
index a442c7e..e619c64 100755
--- a/BibleOrgSys/Reference/Converters/USFM2MarkersConverter.py
+++ b/BibleOrgSys/Reference/Converters/USFM2MarkersConverter.py
@@ -145,7 +145,7 @@ class USFM2MarkersConverter:
                         logging.warning( _("Missing work element in header") )
             else:
                 logging.warning( _("Missing header element (looking for {!r} tag)".format( self._headerTag ) ) )
-            if header.tail is not None and header.tail.strip(): logging.error( _("Unexpected {!r} tail data after header").format( element.tail ) )
+            if header.tail is not None and header.tail.strip(): logging.error( _("Unexpected {!r} tail data after header").format( header.tail ) )
         else:
             logging.error( _("Expected to load {!r} but got {!r}").format( self._treeTag, self._XMLTree.tag ) )
     # end of __load
diff --git a/BibleOrgSys/Reference/Converters/USFM3MarkersConverter.py b/BibleOrgSys/Reference/Converters/USFM3MarkersConverter.py
index 232f060..4ada51e 100755
--- a/BibleOrgSys/Reference/Converters/USFM3MarkersConverter.py
+++ b/BibleOrgSys/Reference/Converters/USFM3MarkersConverter.py
@@ -145,7 +145,7 @@ class USFM3MarkersConverter:
                         logging.warning( _("Missing work element in header") )
             else:
                 logging.warning( _("Missing header element (looking for {!r} tag)".format( self._headerTag ) ) )
-            if header.tail is not None and header.tail.strip(): logging.error( _("Unexpected {!r} tail data after header").format( element.tail ) )
+            if header.tail is not None and header.tail.strip(): logging.error( _("Unexpected {!r} tail data after header").format( header.tail ) )
         else:
             logging.error( _("Expected to load {!r} but got {!r}").format( self._treeTag, self._XMLTree.tag ) )
     # end of __load
diff --git a/BibleOrgSys/Reference/LDML.py b/BibleOrgSys/Reference/LDML.py
index 05ae54c..0930f8f 100755
--- a/BibleOrgSys/Reference/LDML.py
+++ b/BibleOrgSys/Reference/LDML.py
@@ -389,7 +389,7 @@ class LDMLFile:
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "here7", attrib, value )
                         if attrib=='draft': miDraft = value; assert miDraft in DRAFT_VALUES
                         else:
-                            logging.error( _("Unprocessed {!r} attribute ({}) in {}").format( attrib, value, su2elementLocation ) )
+                            logging.error( _("Unprocessed {!r} attribute ({}) in {}").format( attrib, value, subelementLocation ) )
                             if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
                     assert subelement.tag not in characters
                     characters[subelement.tag] = subelement.text
@@ -3350,7 +3350,7 @@ class LDMLFile:
                                 metadata[adjustedTag][sub2element.tag] = []
                             metadata[adjustedTag][sub2element.tag].append( (ciType,ciOverride) )
                         else:
-                            logging.error( _("Unprocessed {!r} sub2element ({}) in {}").format( sub2element.tag, sub2element.text.strip() if sub2element.text else sub2element.text, subLocation ) )
+                            logging.error( _("Unprocessed {!r} sub2element ({}) in {}").format( sub2element.tag, sub2element.text.strip() if sub2element.text else sub2element.text, subelementLocation ) )
                             if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag: halt
                 else:
                     logging.error( _("Unprocessed {!r} subelement ({}) in {}").format( subelement.tag, subelement.text.strip() if subelement.text else subelement.text, elementLocation ) )
-- 
2.43.0


From c21501db3c6196f91253f42ad6fe4c77a32fdf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:43 +0000
Subject: [PATCH 31/91] fix: notes in old-style markup are recorded with their
 location

---
 BibleOrgSys/Internals/InternalBibleBook.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index b1e1fb6..ce035c4 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -1160,7 +1160,7 @@ class InternalBibleBook:
                     stuff = adjText[ixStart+3:ixClose]
                     adjText = adjText[:ixStart] + adjText[ixClose+1:ixEnd] + adjText[ixEnd+4:]
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "st", "'"+stuff+"'", )
-                    extras.append( InternalBibleExtra('sr',ixStart+ixEnd-ixClose,stuff,stuff) )
+                    extras.append( InternalBibleExtra('sr',ixStart+ixEnd-ixClose,stuff,stuff,lineLocation) )
                     ixStart += ixEnd-ixClose-1
                 elif remainingText.startswith( '<note ' ):
                     ixClose = adjText.find( '>', ixStart+1 )
@@ -1177,7 +1177,7 @@ class InternalBibleBook:
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "st", "'"+stuff+"'", )
                     if stuff == 'type="study"': code = 'sn'
                     else: halt # programming error
-                    extras.append( InternalBibleExtra(code,ixStart+ixEnd-ixClose,stuff,stuff) )
+                    extras.append( InternalBibleExtra(code,ixStart+ixEnd-ixClose,stuff,stuff,lineLocation) )
                     #ixStart += 0
                 elif remainingText.startswith('<RF>1<Rf>') or remainingText.startswith('<RF>2<Rf>') \
                 or remainingText.startswith('<RF>3<Rf>') or remainingText.startswith('<RF>4<Rf>'):
-- 
2.43.0


From 81dfd9c46e0d943f10a1914ce29e6f2902632386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:35 +0000
Subject: [PATCH 32/91] fix: anchor references, OSIS work subelements and odd
 Forge references are reported

---
 BibleOrgSys/Formats/ForgeForSwordSearcherBible.py | 2 +-
 BibleOrgSys/Formats/OSISXMLBible.py               | 4 ++--
 BibleOrgSys/Reference/BibleReferences.py          | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/BibleOrgSys/Formats/ForgeForSwordSearcherBible.py b/BibleOrgSys/Formats/ForgeForSwordSearcherBible.py
index 9be9bc6..7134efe 100755
--- a/BibleOrgSys/Formats/ForgeForSwordSearcherBible.py
+++ b/BibleOrgSys/Formats/ForgeForSwordSearcherBible.py
@@ -358,7 +358,7 @@ class ForgeForSwordSearcherBible( Bible ):
                                     if not BBB: BBB = BOS81.getBBBFromText( bookCode )  # Try to guess
                                     if not BBB: BBB = BOSx.getBBBFromText( bookCode )  # Try to guess
                                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "4BBB =", repr(BBB) )
-                        else: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Unexpected number of Forge bits", self.givenName, BBB, bookCode, chapterNumberString, verseNumberString, len(bits), bits )
+                        else: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Unexpected number of Forge bits", self.givenName, repr(pointer), len(B_CV_Bits), B_CV_Bits )
                     continue # Just save the pointer information which refers to the text on the next line
                 else: # it's not a $$ line
                     text = line
diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index 354caaa..9bd9cc0 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -1764,8 +1764,8 @@ class OSISXMLBible( Bible ):
                 # Now process the subelements
                 for subelement in element:
                     if len(subelement):
-                        logging.error( "hf54 Unexpected {} subelements in subelement {} in {} work".format( len(subelement), subelement.tag, osisWork ) )
-                        loadErrors.append( "Unexpected {} subelements in subelement {} in {} work (hf54)".format( len(subelement), subelement.tag, osisWork ) )
+                        logging.error( "hf54 Unexpected {} subelements in subelement {} in {} work".format( len(subelement), subelement.tag, osisWorkName ) )
+                        loadErrors.append( "Unexpected {} subelements in subelement {} in {} work (hf54)".format( len(subelement), subelement.tag, osisWorkName ) )
                         if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
                     if subelement.tag == OSISXMLBible.OSISNameSpace+'title':
                         sublocation = "title of " + location
diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index d7d579e..b7a0fc5 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -1652,7 +1652,7 @@ class BibleAnchorReference:
                     temp += char
                 else:
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Char is {!r}, Temp is {!r}".format(char,temp) )
-                    if char in self.punctuationDict['chapterVerseSeparator'] and temp and temp.isdigit(): # Assume it's a follow on chapter number
+                    if char in self.allowedCVSeparators and temp and temp.isdigit(): # Assume it's a follow on chapter number
                         C = temp
                         status = 1 # Now get the verse number
                     else:
@@ -1672,7 +1672,7 @@ class BibleAnchorReference:
                     status = 0 # done
                 elif char.isalnum():
                     X += char
-                elif X and char in self.punctuationDict['chapterVerseSeparator']: # This must have been a chapter range
+                elif X and char in self.allowedCVSeparators: # This must have been a chapter range
                     C = X
                     V = S = ''
                     status = 5
-- 
2.43.0


From 780fff68235859e762b7e9001721baa12f5ee208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:10 +0000
Subject: [PATCH 33/91] fix: references with six verses take each verse and
 suffix from its own group

---
 BibleOrgSys/Reference/VerseReferences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index a88f359..6cd24c6 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -605,7 +605,7 @@ class SimpleVersesKey():
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
             V4, S4 = match.group(9), match.group(10) if match.group(10) else ''
             V5, S5 = match.group(11), match.group(12) if match.group(12) else ''
-            V6, S6 = match.group(12), match.group(13) if match.group(13) else ''
+            V6, S6 = match.group(13), match.group(14) if match.group(14) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
                 logging.error( "SimpleVersesKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
-- 
2.43.0


From 62ec33d1387e81cd25a5e0f809922c67b82ffa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:10 +0000
Subject: [PATCH 34/91] fix: verse keys that differ only in their index are not
 equal

---
 BibleOrgSys/Reference/VerseReferences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index 6cd24c6..d4210af 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -248,7 +248,7 @@ class SimpleVerseKey():
     def __eq__( self, other ):
         #if type( other ) is type( self ): return self.__dict__ == other.__dict__
         if type( other ) is type( self ):
-            return self.BBB==other.BBB and self.C==other.C and self.V==other.V and self.S==other.S
+            return self.BBB==other.BBB and self.C==other.C and self.V==other.V and self.S==other.S and self.I==other.I
         return False
     def __ne__(self, other): return not self.__eq__(other)
 
-- 
2.43.0


From e5e3c91b2ab16c01eee9200566e71d424a796661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:10 +0000
Subject: [PATCH 35/91] fix: references to the books A2Z, A2J, H2C and P4D can
 be parsed

---
 BibleOrgSys/Reference/VerseReferences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index d4210af..363feba 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -109,7 +109,7 @@ DEBUGGING_THIS_MODULE = False
 #
 #       All metacharacters (which must be escaped to search for literals): . ^ $ * + ? { } [ ] \ | ( )
 #
-BBB_RE = '([A-PR-XZ][A-EG-VX-Z1][A-WYZ1-6])' # Finds BBB codes only (as strict as possible) -- see Apps/TestBooksCodesRE.py
+BBB_RE = '([A-PR-XZ][A-EG-VX-Z124][A-WYZ1-6])' # Finds BBB codes only (as strict as possible) -- see Apps/TestBooksCodesRE.py
 C_RE = '([1-9][0-9]?|[1][0-9][0-9])' #  Chapter numbers 1..199 (doesn't handle chapters -1 or 0)
 V_RE = '([1-9][0-9]?|[1][0-9][0-9])' #  Verse numbers 1..199 (doesn't handle verse 0)
 S_RE = '!([a-d]?)'
-- 
2.43.0


From e8307cf173380c6e99a00d8959cbdb87415ad363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:38 +0000
Subject: [PATCH 36/91] fix: verse ranges that end before they start no longer
 loop forever

---
 BibleOrgSys/Reference/VerseReferences.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index 363feba..64c88b7 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -888,6 +888,9 @@ class VerseRangeKey():
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
                 assert int(V2)>int(V1) or S2!=S1
+            if int(V2)<int(V1) or (V2==V1 and S2<=S1):
+                logging.error( "VerseRangeKey: range goes backwards in {!r}".format( referenceString ) )
+                return False
             self.rangeStart = SimpleVerseKey( BBB, C, V1, S1 )
             self.rangeEnd = SimpleVerseKey( BBB, C, V2, S2 )
             self.verseKeysList = []
@@ -895,8 +898,9 @@ class VerseRangeKey():
             V = V1
             if BibleOrgSysGlobals.debugFlag:
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  Expanding range from {} to {}…".format( self.rangeStart.getShortText(), self.rangeEnd.getShortText() ) )
-            assert int(V2)>int(V1) or S2!=S1
-            while True:
+            if V == V2: # different suffixes of the one verse
+                self.verseKeysList.append( SimpleVerseKey( BBB, C, V2, S2 ) )
+            while V != V2:
                 V = str( int(V) + 1 )
                 if V==V2:
                     self.verseKeysList.append( SimpleVerseKey( BBB, C, V2, S2 ) )
@@ -915,6 +919,9 @@ class VerseRangeKey():
                 logging.error( "VerseRangeKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
+            if (int(C2),int(V2)) < (int(C1),int(V1)):
+                logging.error( "VerseRangeKey: range goes backwards in {!r}".format( referenceString ) )
+                return False
             self.rangeStart = SimpleVerseKey( BBB, C1, V1, S1 )
             self.rangeEnd = SimpleVerseKey( BBB, C2, V2, S2 )
             self.verseKeysList = []
@@ -970,6 +977,9 @@ class VerseRangeKey():
                 logging.error( "VerseRangeKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
+            if int(V2)<int(V1):
+                logging.error( "VerseRangeKey: range goes backwards in {!r}".format( referenceString ) )
+                return False
             self.rangeStart = SimpleVerseKey( BBB, C, V1, S1 )
             self.rangeEnd = SimpleVerseKey( BBB, C, V2, S2 )
             self.verseKeysList = []
@@ -994,6 +1004,9 @@ class VerseRangeKey():
                 logging.error( "VerseRangeKey: Invalid {!r} book code".format( BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert BBB in BibleOrgSysGlobals.loadedBibleBooksCodes
+            if (int(C2),int(V2)) < (int(C1),int(V1)):
+                logging.error( "VerseRangeKey: range goes backwards in {!r}".format( referenceString ) )
+                return False
             self.rangeStart = SimpleVerseKey( BBB, C1, V1, S1 )
             self.rangeEnd = SimpleVerseKey( BBB, C2, V2, S2 )
             self.verseKeysList = []
-- 
2.43.0


From c84c97d55dbf7f764ef7f71b4d10e4351d28badd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:00 +0000
Subject: [PATCH 37/91] fix: punctuation systems can be loaded from their XML
 files

---
 BibleOrgSys/Reference/BiblePunctuationSystems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/BiblePunctuationSystems.py b/BibleOrgSys/Reference/BiblePunctuationSystems.py
index 4133cf7..1c80bf1 100755
--- a/BibleOrgSys/Reference/BiblePunctuationSystems.py
+++ b/BibleOrgSys/Reference/BiblePunctuationSystems.py
@@ -107,7 +107,7 @@ class BiblePunctuationSystems:
             if XMLFolder is not None:
                 logging.warning( _("Bible Punctuation systems are already loaded -- your given filepath of {!r} was ignored").format(XMLFolder) )
             bvsc = BiblePunctuationSystemsConverter()
-            bvsc.loadAndValidate( standardXMLFileOrFilepath ) # Load the XML (if not done already)
+            bvsc.loadSystems( XMLFolder ) # Load the XML (if not done already)
             self.__DataDict = bvsc.importDataToPython() # Get the various dictionaries organised for quick lookup
         return self # So this command can be chained after the object creation
         #     # See if we can load from the pickle file (faster than loading from the XML)
-- 
2.43.0


From 83d7ab00f2129958a76c3ede65575f374f6a7112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 38/91] fix: fix: a range of verses can be asked for by verse
 key

---
 BibleOrgSys/Internals/InternalBibleBook.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index ce035c4..cc996bf 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -5243,10 +5243,10 @@ class InternalBibleBook:
         assert isinstance( verseEntryList, InternalBibleEntryList )
 
         # Now concatenate the verse lists for the following verses
-        startC = startBCVReference[1] if isinstance( startBCVReference, tuple ) else startBCVReference.getC()
-        startV = startBCVReference[2] if isinstance( startBCVReference, tuple ) else startBCVReference.getV()
-        endC = endBCVReference[1] if isinstance( endBCVReference, tuple ) else endBCVReference.getC()
-        endV = endBCVReference[2] if isinstance( endBCVReference, tuple ) else endBCVReference.getV()
+        startC = startBCVReference[1] if isinstance( startBCVReference, tuple ) else startBCVReference.getChapterNumber()
+        startV = startBCVReference[2] if isinstance( startBCVReference, tuple ) else startBCVReference.getVerseNumber()
+        endC = endBCVReference[1] if isinstance( endBCVReference, tuple ) else endBCVReference.getChapterNumber()
+        endV = endBCVReference[2] if isinstance( endBCVReference, tuple ) else endBCVReference.getVerseNumber()
 
         # dPrint( 'Info', DEBUGGING_THIS_MODULE, f"InternalBibleBook.getContextVerseData concatenating {self.workName} {self.BBB} from {startC}:{startV} to {endC}:{endV} {strict=}" )
         intC = int(startC)
-- 
2.43.0


From d17e077246813acaf7383295b17118744fd5f6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 39/91] fix: the report of two consecutive fr fields in a
 footnote must not raise IndexError

---
 BibleOrgSys/BibleWriter.py         | 4 ++--
 BibleOrgSys/Formats/USXXMLBible.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 42c8520..6d28456 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -3953,7 +3953,7 @@ class BibleWriter( InternalBible ):
                         elif lcToken.startswith('fr '): # footnote reference follows
                             if frOpen:
                                 if self.doExtraChecking: assert not fTextOpen
-                                logger.error( _("toUSX2XML: Two consecutive fr fields in {} {}:{} footnote {!r}").format( token, BBB, C, V, USXfootnote ) )
+                                logger.error( _("toUSX2XML: Two consecutive fr fields {!r} in {} {}:{} footnote {!r}").format( token, BBB, C, V, USXfootnote ) )
                                 USXfootnoteXML += f' closed="false">{adjToken}</char>'
                                 frOpen = False
                             if fTextOpen:
@@ -4505,7 +4505,7 @@ class BibleWriter( InternalBible ):
                         elif lcToken.startswith('fr '): # footnote reference follows
                             if frOpen:
                                 if self.doExtraChecking: assert not fTextOpen
-                                logger.error( _("toUSFXXML: Two consecutive fr fields in {} {}:{} footnote {!r}").format( token, BBB, C, V, USFXfootnote ) )
+                                logger.error( _("toUSFXXML: Two consecutive fr fields {!r} in {} {}:{} footnote {!r}").format( token, BBB, C, V, USFXfootnote ) )
                             if fTextOpen:
                                 if self.doExtraChecking: assert not frOpen
                                 USFXfootnoteXML += ' closed="false">' + adjToken + '</char>'
diff --git a/BibleOrgSys/Formats/USXXMLBible.py b/BibleOrgSys/Formats/USXXMLBible.py
index 3a0f245..49004bf 100755
--- a/BibleOrgSys/Formats/USXXMLBible.py
+++ b/BibleOrgSys/Formats/USXXMLBible.py
@@ -685,7 +685,7 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
                     elif lcToken.startswith('fr '): # footnote reference follows
                         if frOpen:
                             if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag: assert not fTextOpen
-                            logger.error( _("toUSXXML: Two consecutive fr fields in {} {}:{} footnote {!r}").format( token, BBB, C,V, USXfootnote ) )
+                            logger.error( _("toUSXXML: Two consecutive fr fields {!r} in {} {}:{} footnote {!r}").format( token, BBB, C,V, USXfootnote ) )
                             USXfootnoteXML += f' closed="false">{adjToken}</char>'
                             frOpen = False
                         if fTextOpen:
-- 
2.43.0


From 09755e0bebd06ea9518d00a3798189e589bc1d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 40/91] fix: report the right values in the versification and
 marker errors

---
 BibleOrgSys/Internals/InternalBibleBook.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index cc996bf..2f5ed1b 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -2795,14 +2795,14 @@ class InternalBibleBook:
             if marker == 'c':
                 if text: C = text.split()[0]
                 else:
-                    validationErrors.append( '{} {}:{} '.format( self.BBB, C, V ) + _("Missing chapter number").format( self.BBB, C, V ) )
+                    validationErrors.append( '{} {}:{} '.format( self.BBB, C, V ) + _("Missing chapter number") )
                     logging.error( _("Missing chapter number after") + " {} {}:{}".format( self.BBB, C, V ) )
                     if C == '-1': C = '1' # Makes it more robust since we had a chapter marker at least
                 V = '0'
             elif marker == 'v':
                 if text: V = text.split()[0]
                 else:
-                    validationErrors.append( '{} {}:{} '.format( self.BBB, C, V ) + _("Missing verse number").format( self.BBB, C, V ) )
+                    validationErrors.append( '{} {}:{} '.format( self.BBB, C, V ) + _("Missing verse number") )
                     logging.error( _("Missing verse number after") + " {} {}:{}".format( self.BBB, C, V ) )
             elif C == '-1' and marker not in ('headers','intro'): V = str( int(V) + 1 ) # first/id line will be -1:0
 
@@ -3006,7 +3006,7 @@ class InternalBibleBook:
                     versification.append( (chapterText, lastVerseNumberString) )
                 chapterText = text.strip()
                 if ' ' in chapterText: # Seems that we can have footnotes here :)
-                    versificationErrors.append( "{} {}:{} ".format( self.BBB, chapterText, verseNumberString ) + _("Unexpected space in USFM chapter number field {!r}").format( self.BBB, lastChapterNumber, lastVerseNumberString, chapterText, lastChapterNumber ) )
+                    versificationErrors.append( "{} {}:{} ".format( self.BBB, chapterText, verseNumberString ) + _("Unexpected space in USFM chapter number field {!r}").format( chapterText ) )
                     vPrint( 'Info', DEBUGGING_THIS_MODULE, _("Unexpected space in USFM chapter number field {!r} after chapter {} of {}").format( chapterText, lastChapterNumber, self.BBB ) )
                     chapterText = chapterText.split( None, 1)[0]
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "{} chapter {}".format( self.BBB, chapterText ) )
@@ -3018,7 +3018,7 @@ class InternalBibleBook:
                 lastChapterNumber = chapterNumber
                 verseText = verseNumberString = lastVerseNumberString = '0'
             elif marker == 'cp':
-                versificationErrors.append( "{} {}:{} ".format( self.BBB, chapterText, verseNumberString ) + _("Encountered cp field {}").format( self.BBB, chapterNumber, lastVerseNumberString, text ) )
+                versificationErrors.append( "{} {}:{} ".format( self.BBB, chapterText, verseNumberString ) + _("Encountered cp field {}").format( text ) )
                 vPrint( 'Info', DEBUGGING_THIS_MODULE, _("Encountered cp field '{}' after {}:{} of {}").format( text, chapterNumber, lastVerseNumberString, self.BBB ) )
             elif marker == 'v':
                 if chapterText == '0':
@@ -3061,7 +3061,7 @@ class InternalBibleBook:
                     #else:
                     combinedVerses.append( (chapterText, verseText) )
                 elif ',' in verseText: # we have a range like 7,8
-                    versificationErrors.append( "{} {}:{} ".format( self.BBB, chapterText, verseNumberString ) + _("Encountered comma combined verses field {}").format( self.BBB, chapterNumber, lastVerseNumberString, verseText ) )
+                    versificationErrors.append( "{} {}:{} ".format( self.BBB, chapterText, verseNumberString ) + _("Encountered comma combined verses field {}").format( verseText ) )
                     vPrint( 'Normal', DEBUGGING_THIS_MODULE, _("Encountered comma combined verses field {} after {}:{} of {}").format( verseText, chapterNumber, lastVerseNumberString, self.BBB ) )
                     bits = verseText.split( ',', 1 )
                     verseNumberString, verseNumber = bits[0], 0
-- 
2.43.0


From 93ecb5dc5e6282cf5e79a771d5b89717fcee74ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 41/91] fix: fill in the locations and texts of the format
 loaders' messages

---
 BibleOrgSys/Formats/SwordModules.py | 4 ++--
 BibleOrgSys/Formats/USFXXMLBible.py | 4 ++--
 BibleOrgSys/Formats/YETBible.py     | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/BibleOrgSys/Formats/SwordModules.py b/BibleOrgSys/Formats/SwordModules.py
index c502054..d4c0387 100755
--- a/BibleOrgSys/Formats/SwordModules.py
+++ b/BibleOrgSys/Formats/SwordModules.py
@@ -1937,7 +1937,7 @@ class SwordBibleModule( SwordModule, Bible ):
                             #if result: result = result.replace('<CM>','') # What is this?
                             if result:
                                 if '\n' in result or '\r' in result:
-                                    logging.warning( "SwordBibleModule.loadBooks: Result with CR or LF {} {}:{} {}".format( self.name, BBB, C, intV, repr(result) ) )
+                                    logging.warning( "SwordBibleModule.loadBooks: Result with CR or LF {} {} {}:{} {}".format( self.name, BBB, C, intV, repr(result) ) )
                                 #thisBook.addLine( 'v', "{} {}".format( intV, result ) )
                                 thisBook.addLine( 'v', "{}".format( intV ) )
                                 thisBook.addLine( 'v~', "{}".format( result.replace( '\n', '' ) ) )
@@ -1998,7 +1998,7 @@ class SwordBibleModule( SwordModule, Bible ):
                             #if result: result = result.replace('<CM>','') # What is this?
                             if result:
                                 if '\n' in result or '\r' in result:
-                                    logging.warning( "SwordBibleModule.loadBook: Result with CR or LF {} {}:{} {}".format( self.name, BBB, C, intV, repr(result) ) )
+                                    logging.warning( "SwordBibleModule.loadBook: Result with CR or LF {} {} {}:{} {}".format( self.name, BBB, C, intV, repr(result) ) )
                                 #thisBook.addLine( 'v', "{} {}".format( intV, result ) )
                                 thisBook.addLine( 'v', "{}".format( intV ) )
                                 thisBook.addLine( 'v~', "{}".format( result.replace( '\n', '' ) ) )
diff --git a/BibleOrgSys/Formats/USFXXMLBible.py b/BibleOrgSys/Formats/USFXXMLBible.py
index 07411b3..b6204c7 100755
--- a/BibleOrgSys/Formats/USFXXMLBible.py
+++ b/BibleOrgSys/Formats/USFXXMLBible.py
@@ -415,7 +415,7 @@ class USFXXMLBible( Bible ):
         C, V = '-1', '-1' # So first/id line starts at -1:0
         for element in bookElement:
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "element", repr(element.tag) )
-            location = "{} of {} {}:{}".format( element.tag, mainLocation, BBB, C, V )
+            location = "{} of {} {} {}:{}".format( element.tag, mainLocation, BBB, C, V )
             if element.tag == 'id':
                 idText = clean( element.text )
                 BibleOrgSysGlobals.checkXMLNoTail( element, location, 'vsg3' )
@@ -980,7 +980,7 @@ class USFXXMLBible( Bible ):
                             else: halt
                         else: # Why do we get xt's embedded inside other xt's???
                             vPrint( 'Never', DEBUGGING_THIS_MODULE, "USFXXMLBible.loadCrossreference: m={!r} xTxt={!r} m2={!r} xTxt2={!r} xTl2={!r} at {}".format( marker, xText, marker2, xText2, xTail2, sub2location ) )
-                            logging.critical( _("USFXXMLBible.loadCrossreference: Bad nesting of xt:"), "m={!r} xTxt={!r} m2={!r} xTxt2={!r} xTl2={!r} at {}".format( marker, xText, marker2, xText2, xTail2, sub2location ) )
+                            logging.critical( _("USFXXMLBible.loadCrossreference: Bad nesting of xt:") + " m={!r} xTxt={!r} m2={!r} xTxt2={!r} xTl2={!r} at {}".format( marker, xText, marker2, xText2, xTail2, sub2location ) )
                         if xTail2: self.thisBook.appendToLastLine( xTail2 )
                 else: halt
             if xTail:
diff --git a/BibleOrgSys/Formats/YETBible.py b/BibleOrgSys/Formats/YETBible.py
index 2b9be33..fb98f63 100755
--- a/BibleOrgSys/Formats/YETBible.py
+++ b/BibleOrgSys/Formats/YETBible.py
@@ -299,7 +299,7 @@ class YETBible( Bible ):
                         if locale == 'in': locale = 'id' # Fix a quirk in the locale encoding
                     else:
                         logging.warning( _("YETBible: unknown {} info field in {} {} {}:{}") \
-                            .format( repr(bits[1]), BBB, chapterNumberString, verseNumberString ) )
+                            .format( repr(bits[1]), self.givenName, BBB, chapterNumberString, verseNumberString ) )
                     continue
                 elif bits[0] == 'book_name':
                     if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag: assert 3 <= len(bits) <= 4
-- 
2.43.0


From b05a35c9f8812f460860002cc2c02133f86818ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 42/91] fix: keep the text of a \w paragraph after \ts or \sp

---
 BibleOrgSys/Formats/USFMBibleBook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/USFMBibleBook.py b/BibleOrgSys/Formats/USFMBibleBook.py
index c24f716..239b189 100755
--- a/BibleOrgSys/Formats/USFMBibleBook.py
+++ b/BibleOrgSys/Formats/USFMBibleBook.py
@@ -578,7 +578,7 @@ class USFMBibleBook( BibleBook ):
                         marker = text = None # Seems to make no difference
                     elif marker == 'w' and lastMarker in ('ts','sp'): # \\ts: A common unfoldingWord USFM encoding error; \\sp in Hindu SNG
                         logging.error( f"USFMBibleBook.load() '{self.workName}' {self.BBB}_{C}:{V} added new paragraph for encoding error after {lastMarker}='{lastText}': {marker}='{text}'" )
-                        marker, text = 'p', '\\w {text}'
+                        marker, text = 'p', f'\\w {text}'
                     elif marker == 'p~' and lastMarker == 'ts': # A common unfoldingWord USFM encoding error
                         logging.error( f"USFMBibleBook.load() '{self.workName}' {self.BBB}_{C}:{V} added new paragraph for encoding error after {lastMarker}='{lastText}': {marker}='{text}'" )
                         marker = 'p'
-- 
2.43.0


From eb67bf32702018b1b8623df67eac4f5852a7ee8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 43/91] fix: theWordAdjustLine: fill in the footnote nesting
 message

---
 BibleOrgSys/Formats/theWordBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/theWordBible.py b/BibleOrgSys/Formats/theWordBible.py
index 2b84c5e..93c729d 100755
--- a/BibleOrgSys/Formats/theWordBible.py
+++ b/BibleOrgSys/Formats/theWordBible.py
@@ -428,7 +428,7 @@ def theWordAdjustLine( BBB:str, C:str, V:str, originalLine:str ):
             newList = [f'<RX {entry.strip()}>' for entry in xrList]
             line = f"{line[:ixStart]}{''.join(newList)}{line[ixEnd+3]}" # Reassemble the line
         else:
-            logging.critical( "theWordAdjustLine had footnote nesting problem with {BBB} {C}:{V} '{originalLine}'" )
+            logging.critical( f"theWordAdjustLine had footnote nesting problem with {BBB} {C}:{V} '{originalLine}'" )
             line = removeUSFMCharacterField( 'x', originalLine, closedFlag=True ).lstrip() # Remove superfluous spaces
 
     if '\\f' in line: # Handle footnotes
-- 
2.43.0


From 365076d500ba3430f8b82d34682b3be14b07b94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 44/91] fix: fill in the remaining unfilled or overfilled
 patterns

---
 BibleOrgSys/BibleWriter.py          | 2 +-
 BibleOrgSys/InputOutput/MLWriter.py | 2 +-
 BibleOrgSys/Misc/USFMBookCompare.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 6d28456..7a81d0e 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -9601,7 +9601,7 @@ class BibleWriter( InternalBible ):
                     writeTeXHeader( bookFile )
                     allFile.write( "\n\\BibleBook{{{}}}\n".format( bookObject.getAssumedBookNames()[0] ) )
                     bookFile.write( "\n\\BibleBook{{{}}}\n".format( bookObject.getAssumedBookNames()[0] ) )
-                    bookFile.write( "\n\\BibleBookTableOfContents\n".format( bookObject.getAssumedBookNames()[0] ) )
+                    bookFile.write( "\n\\BibleBookTableOfContents\n" )
                     gotVP = None
                     C, V = '-1', '-1' # So first/id line starts at -1:0
                     for entry in bookObject._processedLines:
diff --git a/BibleOrgSys/InputOutput/MLWriter.py b/BibleOrgSys/InputOutput/MLWriter.py
index 4bbfaed..4b9c086 100755
--- a/BibleOrgSys/InputOutput/MLWriter.py
+++ b/BibleOrgSys/InputOutput/MLWriter.py
@@ -592,7 +592,7 @@ class MLWriter:
         """
         assert self.__outputFile is not None
         assert self._status == 'Open'
-        dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "autoClose stack: {}", self._openStack )
+        dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "autoClose stack: {}".format( self._openStack ) )
         for index in range( len(self._openStack)-1, -1, -1 ): # Have to step through this backwards
             self.writeLineClose( self._openStack[index] )
         self._sectionName = 'None'
diff --git a/BibleOrgSys/Misc/USFMBookCompare.py b/BibleOrgSys/Misc/USFMBookCompare.py
index 8140677..6475ecf 100755
--- a/BibleOrgSys/Misc/USFMBookCompare.py
+++ b/BibleOrgSys/Misc/USFMBookCompare.py
@@ -223,7 +223,7 @@ def USFMBookCompare( filepath1, filepath2, file1Name='file1', file2Name='file2'
         resultDict['Different']['ChapterMarkerCount'] = (resultDict['File1']['ChapterMarkerCount'],resultDict['File2']['ChapterMarkerCount'])
         if resultDict['File1']['ChapterMarkerCount'] > resultDict['File2']['ChapterMarkerCount']:
             difference = resultDict['File1']['ChapterMarkerCount'] - resultDict['File2']['ChapterMarkerCount']
-            resultDict['Summary']['ChapterMarkerCount'] = "{} has {} more chapter marker{}".format( file1Name,  )
+            resultDict['Summary']['ChapterMarkerCount'] = "{} has {} more chapter marker{}".format( file1Name, difference, '' if difference==1 else 's' )
         elif resultDict['File1']['ChapterMarkerCount'] < resultDict['File2']['ChapterMarkerCount']:
             difference = resultDict['File2']['ChapterMarkerCount'] - resultDict['File1']['ChapterMarkerCount']
             resultDict['Summary']['ChapterMarkerCount'] = "{} has {} more chapter marker{}".format( file2Name, difference, '' if difference==1 else 's' )
-- 
2.43.0


From 51352fecb656a4bb50ece4967845a4dbe92df606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 45/91] fix: double the literal braces in the patterns of the C
 exports

---
 .../Converters/BibleBooksNamesConverter.py    |  8 +++---
 .../BibleOrganisationalSystemsConverter.py    |  8 +++---
 .../BibleVersificationSystemsConverter.py     | 28 +++++++++----------
 3 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/BibleOrgSys/Reference/Converters/BibleBooksNamesConverter.py b/BibleOrgSys/Reference/Converters/BibleBooksNamesConverter.py
index ecec58f..ded65eb 100755
--- a/BibleOrgSys/Reference/Converters/BibleBooksNamesConverter.py
+++ b/BibleOrgSys/Reference/Converters/BibleBooksNamesConverter.py
@@ -523,15 +523,15 @@ class BibleBooksNamesConverter:
                     else: logging.error( _("Cannot convert unknown field type {!r} in entry {!r}").format( field, entry ) )
                 return result
 
-            theFile.write( "static struct {} {}[] = {\n  // Fields are {}\n".format( structName, dictName, fieldsComment ) )
+            theFile.write( "static struct {} {}[] = {{\n  // Fields are {}\n".format( structName, dictName, fieldsComment ) )
             for entry in sorted(theDict.keys()):
                 if isinstance( entry, str ):
-                    theFile.write( "  {\"{}\", {}},\n".format( entry, convertEntry(theDict[entry]) ) )
+                    theFile.write( "  {{\"{}\", {}}},\n".format( entry, convertEntry(theDict[entry]) ) )
                 elif isinstance( entry, int ):
-                    theFile.write( "  {{}, {}},\n".format( entry, convertEntry(theDict[entry]) ) )
+                    theFile.write( "  {{{}, {}}},\n".format( entry, convertEntry(theDict[entry]) ) )
                 else:
                     logging.error( _("Can't handle this type of data yet: {}").format( entry ) )
-            theFile.write( "}; // {}\n\n".format( dictName) )
+            theFile.write( "}}; // {}\n\n".format( dictName) )
         # end of exportPythonDict
 
         from datetime import datetime
diff --git a/BibleOrgSys/Reference/Converters/BibleOrganisationalSystemsConverter.py b/BibleOrgSys/Reference/Converters/BibleOrganisationalSystemsConverter.py
index 2c6a12c..9f97201 100755
--- a/BibleOrgSys/Reference/Converters/BibleOrganisationalSystemsConverter.py
+++ b/BibleOrgSys/Reference/Converters/BibleOrganisationalSystemsConverter.py
@@ -467,15 +467,15 @@ class BibleOrganisationalSystemsConverter:
                     else: logging.error( _("Cannot convert unknown field type {!r} in entry {!r}").format( field, entry ) )
                 return result
 
-            theFile.write( "static struct {} {}[] = {\n  // Fields are {}\n".format( structName, dictName, fieldsComment ) )
+            theFile.write( "static struct {} {}[] = {{\n  // Fields are {}\n".format( structName, dictName, fieldsComment ) )
             for entry in sorted(theDict.keys()):
                 if isinstance( entry, str ):
-                    theFile.write( "  {\"{}\", {}},\n".format( entry, convertEntry(theDict[entry]) ) )
+                    theFile.write( "  {{\"{}\", {}}},\n".format( entry, convertEntry(theDict[entry]) ) )
                 elif isinstance( entry, int ):
-                    theFile.write( "  {{}, {}},\n".format( entry, convertEntry(theDict[entry]) ) )
+                    theFile.write( "  {{{}, {}}},\n".format( entry, convertEntry(theDict[entry]) ) )
                 else:
                     logging.error( _("Can't handle this type of data yet: {}").format( entry ) )
-            theFile.write( "}; // {}\n\n".format( dictName) )
+            theFile.write( "}}; // {}\n\n".format( dictName) )
         # end of exportPythonDict
 
 
diff --git a/BibleOrgSys/Reference/Converters/BibleVersificationSystemsConverter.py b/BibleOrgSys/Reference/Converters/BibleVersificationSystemsConverter.py
index 6b94d45..557c553 100755
--- a/BibleOrgSys/Reference/Converters/BibleVersificationSystemsConverter.py
+++ b/BibleOrgSys/Reference/Converters/BibleVersificationSystemsConverter.py
@@ -498,11 +498,11 @@ class BibleVersificationSystemsConverter:
         """
         def writeStructure( hFile, structName, structure ):
             """ Writes a typedef to the .h file. """
-            hFile.write( "typedef struct{}EntryStruct {\n".format( structName ) )
+            hFile.write( "typedef struct{}EntryStruct {{\n".format( structName ) )
             for declaration in structure.split(';'):
                 adjDeclaration = declaration.strip()
                 if adjDeclaration: hFile.write( "   {};\n".format( adjDeclaration ) )
-            hFile.write( "}{}Entry;\n\n".format( structName ) )
+            hFile.write( "}}{}Entry;\n\n".format( structName ) )
         # end of writeStructure
 
         def exportPythonDict( cFile, theDict, dictName, structName, sortedBy, structure ):
@@ -523,7 +523,7 @@ class BibleVersificationSystemsConverter:
                             for value in field:
                                 if tupleResult: tupleResult += "," # Separate the fields (without a space)
                                 tupleResult += convertEntry( value ) # recursive call
-                            result += "{{} }".format( tupleResult )
+                            result += "{{{} }}".format( tupleResult )
                         else: logging.error( _("Cannot convert unknown field type {!r} in entry {!r}").format( field, entry ) )
                 return result
             # end of convertEntry
@@ -533,15 +533,15 @@ class BibleVersificationSystemsConverter:
             #    break # We only check the first (random) entry we get
             fieldsCount = 2
 
-            cFile.write( "const static{}\n{}[{}] = {\n  // Fields ({}) are{}\n  // Sorted by{}\n".format( structName, dictName, len(theDict), fieldsCount, structure, sortedBy ) )
+            cFile.write( "const static{}\n{}[{}] = {{\n  // Fields ({}) are{}\n  // Sorted by{}\n".format( structName, dictName, len(theDict), fieldsCount, structure, sortedBy ) )
             for dictKey in sorted(theDict.keys()):
                 if isinstance( dictKey, str ):
-                    cFile.write( "  {\"{}\",{}},\n".format( dictKey, convertEntry(theDict[dictKey]) ) )
+                    cFile.write( "  {{\"{}\",{}}},\n".format( dictKey, convertEntry(theDict[dictKey]) ) )
                 elif isinstance( dictKey, int ):
-                    cFile.write( "  {{},{}},\n".format( dictKey, convertEntry(theDict[dictKey]) ) )
+                    cFile.write( "  {{{},{}}},\n".format( dictKey, convertEntry(theDict[dictKey]) ) )
                 else:
                     logging.error( _("Can't handle this type of data yet: {}").format( dictKey ) )
-            cFile.write( "}; //{} ({} entries)\n\n".format( dictName, len(theDict) ) )
+            cFile.write( "}}; //{} ({} entries)\n\n".format( dictName, len(theDict) ) )
         # end of exportPythonDict
 
         def XXXexportPythonDict( theFile, theDict, dictName, structName, fieldsComment ):
@@ -568,16 +568,16 @@ class BibleVersificationSystemsConverter:
                     else: logging.error( _("Cannot convert unknown field type {!r} in entry {!r}").format( field, entry ) )
                 return result
 
-            theFile.write( "static struct{}{}[{}] = {\n  // Fields are{}\n".format( structName, dictName, len(theDict), fieldsComment ) )
+            theFile.write( "static struct{}{}[{}] = {{\n  // Fields are{}\n".format( structName, dictName, len(theDict), fieldsComment ) )
             for dictKey in sorted(theDict.keys()):
                 if isinstance( dictKey, str ):
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, dictKey, theDict[dictKey] )
-                    theFile.write( "  {\"{}\",{}},\n".format( dictKey, convertEntry(theDict[dictKey]) ) )
+                    theFile.write( "  {{\"{}\",{}}},\n".format( dictKey, convertEntry(theDict[dictKey]) ) )
                 elif isinstance( dictKey, int ):
-                    theFile.write( "  {{},{}},\n".format( dictKey, convertEntry(theDict[dictKey]) ) )
+                    theFile.write( "  {{{},{}}},\n".format( dictKey, convertEntry(theDict[dictKey]) ) )
                 else:
                     logging.error( _("Can't handle this type of key data yet: {}").format( dictKey ) )
-            theFile.write( "}; //{} ({} entries)\n\n".format( dictName, len(theDict) ) )
+            theFile.write( "}}; //{} ({} entries)\n\n".format( dictName, len(theDict) ) )
         # end of XXXexportPythonDict
 
 
@@ -646,10 +646,10 @@ class BibleVersificationSystemsConverter:
 #                exportPythonDict( myCFile, self.__DataDict[systemName][1], "omittedVersesDict", "{struct char* stuff[]}", "tables containing referenceAbbreviation then pairs of chapterNumber,omittedVerseNumber" )
 
             # Write out the final table of pointers to the above information
-            myCFile.write( "\n// Pointers to above data\nconst static tableEntry bookOrderSystemTable[{}] = {\n".format( len(self.__DataDict) ) )
+            myCFile.write( "\n// Pointers to above data\nconst static tableEntry bookOrderSystemTable[{}] = {{\n".format( len(self.__DataDict) ) )
             for systemName in self.__DataDict: # Now write out the actual pointer data into the .c file
-                myCFile.write( '  { "{}",{},{} },\n'.format( systemName, systemName+"CVDict", systemName+"OmittedVersesDict" ) )
-            myCFile.write( "}; //{} entries\n\n".format( len(self.__DataDict) ) )
+                myCFile.write( '  {{ "{}",{},{} }},\n'.format( systemName, systemName+"CVDict", systemName+"OmittedVersesDict" ) )
+            myCFile.write( "}}; //{} entries\n\n".format( len(self.__DataDict) ) )
             myCFile.write( "// end of {}".format( os.path.basename(cFilepath) ) )
     # end of BibleVersificationSystemsConverter.exportDataToC
 # end of BibleVersificationSystemsConverter class
-- 
2.43.0


From 85ed4235bc0f8ec0778a4c41e0bafb4ee277cc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 46/91] fix: theWordAdjustLine: keep the whole line after a
 cross-reference

---
 BibleOrgSys/Formats/theWordBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/theWordBible.py b/BibleOrgSys/Formats/theWordBible.py
index 93c729d..e6d8d83 100755
--- a/BibleOrgSys/Formats/theWordBible.py
+++ b/BibleOrgSys/Formats/theWordBible.py
@@ -426,7 +426,7 @@ def theWordAdjustLine( BBB:str, C:str, V:str, originalLine:str ):
             assert ixEnd != -1
             xrList = line[ixXT+4:ixEnd].strip().split(';')
             newList = [f'<RX {entry.strip()}>' for entry in xrList]
-            line = f"{line[:ixStart]}{''.join(newList)}{line[ixEnd+3]}" # Reassemble the line
+            line = f"{line[:ixStart]}{''.join(newList)}{line[ixEnd+3:]}" # Reassemble the line
         else:
             logging.critical( f"theWordAdjustLine had footnote nesting problem with {BBB} {C}:{V} '{originalLine}'" )
             line = removeUSFMCharacterField( 'x', originalLine, closedFlag=True ).lstrip() # Remove superfluous spaces
-- 
2.43.0


From 3bb7960ae677de4c7e85707aa61a19c9ddae796e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 47/91] fix: BibleOrganisationalSystem: each system has its own
 absolute verse numbers

---
 BibleOrgSys/Reference/BibleOrganisationalSystems.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleOrganisationalSystems.py b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
index bade387..08ec017 100755
--- a/BibleOrgSys/Reference/BibleOrganisationalSystems.py
+++ b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
@@ -532,18 +532,19 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
     # end of BibleOrganisationalSystem.isValidBCVRef
 
 
-    __absoluteVerseDict = {}
+    __absoluteVerseDict = None # Filled (for this system) when first needed
     def __makeAbsoluteVerseList( self ):
         """
         Make up a list of four-tuples containing
             BBB, chapterNumber, firstVerseNumber, lastVerseNumber
         """
+        self.__absoluteVerseDict = {}
         accumulatedCount = 0
         for BBB in self.getBookList():
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, BibleVersificationSystem.getNumVersesList( self, BBB ) )
             for j,numVerses in enumerate( BibleVersificationSystem.getNumVersesList( self, BBB ) ):
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, j, numVerses )
-                BibleOrganisationalSystem.__absoluteVerseDict[(BBB,j+1)] = (accumulatedCount+1,accumulatedCount+numVerses)
+                self.__absoluteVerseDict[(BBB,j+1)] = (accumulatedCount+1,accumulatedCount+numVerses)
                 accumulatedCount += numVerses
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BibleOrganisationalSystem.__absoluteVerseDict )
     # end of BibleOrganisationalSystem.__makeAbsoluteVerseList
@@ -559,8 +560,8 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
         Returns None for invalid or missing values.
         """
         C, V = int(C), int(V)
-        if not BibleOrganisationalSystem.__absoluteVerseDict: self.__makeAbsoluteVerseList()
-        rangeStart, rangeEnd = BibleOrganisationalSystem.__absoluteVerseDict[ (BBB,C) ]
+        if not self.__absoluteVerseDict: self.__makeAbsoluteVerseList()
+        rangeStart, rangeEnd = self.__absoluteVerseDict[ (BBB,C) ]
         if 1 <= V <= rangeEnd-rangeStart+1:
             return rangeStart + V - 1
     # end of BibleOrganisationalSystem.getAbsoluteVerseNumber
@@ -576,8 +577,8 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
         Returns None for invalid or missing values.
         """
         if BibleOrgSysGlobals.debugFlag or BibleOrgSysGlobals.strictCheckingFlag: assert 1 <= avNumber <= 99999
-        if not BibleOrganisationalSystem.__absoluteVerseDict: self.__makeAbsoluteVerseList()
-        for (BBB,C),(rangeStart, rangeEnd) in BibleOrganisationalSystem.__absoluteVerseDict.items():
+        if not self.__absoluteVerseDict: self.__makeAbsoluteVerseList()
+        for (BBB,C),(rangeStart, rangeEnd) in self.__absoluteVerseDict.items():
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, C, rangeStart, rangeEnd )
             if rangeStart <= avNumber <= rangeEnd:
                 return BBB, str(C), str(avNumber - rangeStart + 1)
-- 
2.43.0


From 33a01cbcc1b7b404961c08117033b448894663f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 48/91] fix: BibleStylesheet.loadDefault: do not add the
 unformatted styles to the module default

---
 BibleOrgSys/Reference/BibleStylesheets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/BibleStylesheets.py b/BibleOrgSys/Reference/BibleStylesheets.py
index 6ad745b..bc5e00b 100755
--- a/BibleOrgSys/Reference/BibleStylesheets.py
+++ b/BibleOrgSys/Reference/BibleStylesheets.py
@@ -261,7 +261,7 @@ class BibleStylesheet():
         Load the above styles
             and copy any unformatted styles not explicitly declared.
         """
-        self.dataDict = DEFAULT_STYLE_DICT
+        self.dataDict = DEFAULT_STYLE_DICT.copy() # We add our own entries below
         self.name = 'Default'
 
         for marker,style in self.dataDict.copy().items():
-- 
2.43.0


From 0afc9addaf93270233a088a47a5bdd7f1cdf5493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 49/91] fix: SwordInstallManager: added sources belong to this
 manager only

---
 BibleOrgSys/Online/SwordInstallManager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Online/SwordInstallManager.py b/BibleOrgSys/Online/SwordInstallManager.py
index fc3b6e8..8e391f2 100755
--- a/BibleOrgSys/Online/SwordInstallManager.py
+++ b/BibleOrgSys/Online/SwordInstallManager.py
@@ -238,7 +238,7 @@ class SwordInstallManager():
         self.currentTempFolder = tempfile.gettempdir()
 
         # We default to allowing all of the default sources
-        self.downloadSources = DEFAULT_SWORD_DOWNLOAD_SOURCES # dict
+        self.downloadSources = dict( DEFAULT_SWORD_DOWNLOAD_SOURCES ) # A copy, because addSource adds to it
         self.currentRepoName = None
 
         self.installFolders = list( DEFAULT_SWORD_INSTALL_FOLDERS )
-- 
2.43.0


From f6deec2bf04cf5522362b048253e1416c26c07d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 50/91] fix: toTeX: run xelatex in the output folder without
 changing our own working folder

---
 BibleOrgSys/BibleWriter.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 7a81d0e..fe1dc99 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -9560,10 +9560,8 @@ class BibleWriter( InternalBible ):
                 # Now run xelatex (TeX -> PDF)
                 parameters = ['/usr/bin/timeout', timeout, '/usr/bin/xelatex', '-interaction=batchmode', os.path.abspath(texFilepath) ]
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "makeIndividualPDF (xelatex) parameters", parameters )
-                os.chdir( outputFolderpath ) # So the paths for the Bible.cls file are correct
-                myProcess = subprocess.Popen( parameters, stdout=subprocess.PIPE, stderr=subprocess.PIPE )
+                myProcess = subprocess.Popen( parameters, cwd=outputFolderpath, stdout=subprocess.PIPE, stderr=subprocess.PIPE ) # So the paths for the Bible.cls file are correct
                 programOutputBytes, programErrorOutputBytes = myProcess.communicate()
-                os.chdir( cwdSave ) # Restore the path again
                 if myProcess.returncode == 124: # it timed out
                     programErrorOutputBytes += "xelatex {}: Timed out after {}".format( BBB, timeout ).encode( 'utf-8' )
                 # Process the output
@@ -9586,7 +9584,6 @@ class BibleWriter( InternalBible ):
 
 
         # Write the plain text XeTeX file
-        cwdSave = os.getcwd() # Save the current working directory before changing (below) to the output directory
         allFilename = "All-BOS-BibleWriter.tex"
         allFilepath = os.path.join( outputFolderpath, BibleOrgSysGlobals.makeSafeFilename( allFilename ) )
         vPrint( 'Info', DEBUGGING_THIS_MODULE, '  toTeX: ' + _("Writing {!r}…").format( allFilepath ) )
-- 
2.43.0


From b13f0dcc07e92fe1e22e61ca00116e960cd64be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 51/91] fix: preloadCommonData: calling it again gives the same
 marker lists

---
 BibleOrgSys/BibleOrgSysGlobals.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/BibleOrgSys/BibleOrgSysGlobals.py b/BibleOrgSys/BibleOrgSysGlobals.py
index 3c3b569..9b3c60d 100755
--- a/BibleOrgSys/BibleOrgSysGlobals.py
+++ b/BibleOrgSys/BibleOrgSysGlobals.py
@@ -1536,6 +1536,9 @@ def preloadCommonData() -> None:
     from BibleOrgSys.Reference.USFM3Markers import USFM3Markers
     loadedUSFMMarkers = USFM3Markers().loadData() # This is a class 'BibleOrgSys.Reference.USFM3Markers.USFM3Markers'
     assert len(loadedUSFMMarkers) >= 220
+    # Start with empty lists in case we were already called
+    USFMParagraphMarkers.clear(); USFMCharacterMarkers.clear()
+    USFMAllExpandedCharacterMarkers.clear(); internal_SFMs_to_remove.clear()
     USFMParagraphMarkers += loadedUSFMMarkers.getNewlineMarkersList( 'CanonicalText' )
     USFMParagraphMarkers.remove( 'qa' ) # This is actually a heading marker
     USFMParagraphMarkers.remove( 'qc' ) # Treat this like a heading marker also
-- 
2.43.0


From 2b2bea1e813aa2443410b13c5c5976592f36123f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:18 +0000
Subject: [PATCH 52/91] fix: VPLBible.loadBooks: prepare the book names before
 they are used

---
 BibleOrgSys/Formats/VPLBible.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/BibleOrgSys/Formats/VPLBible.py b/BibleOrgSys/Formats/VPLBible.py
index e4b1352..8cc15cc 100755
--- a/BibleOrgSys/Formats/VPLBible.py
+++ b/BibleOrgSys/Formats/VPLBible.py
@@ -805,6 +805,11 @@ class VPLBible( Bible ):
         vPrint( 'Info', DEBUGGING_THIS_MODULE, _("Loading books from {}…").format( self.sourceFolder ) )
         assert self.sourceFilepath is None
 
+        global BOS66, BOS81, BOSx
+        if BOS66 is None: BOS66 = BibleOrganisationalSystem( 'GENERIC-KJV-66-ENG' )
+        if BOS81 is None: BOS81 = BibleOrganisationalSystem( 'GENERIC-KJV-80-ENG' )
+        if BOSx is None: BOSx = BibleOrganisationalSystem( 'GENERIC-ENG' )
+
         settingsDict = {}
 
         for filename in os.listdir( self.sourceFolder ):
-- 
2.43.0


From 7b719091b4b51d5ff5081e1bf26068445afe8d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 53/91] fix: SwordBibleModule.loadBooks: do the post-load
 processing, and report when nothing was loaded

---
 BibleOrgSys/Formats/SwordModules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/SwordModules.py b/BibleOrgSys/Formats/SwordModules.py
index d4c0387..9df13f4 100755
--- a/BibleOrgSys/Formats/SwordModules.py
+++ b/BibleOrgSys/Formats/SwordModules.py
@@ -1946,9 +1946,10 @@ class SwordBibleModule( SwordModule, Bible ):
                     self.books[BBB] = thisBook
             del self.store # The original module information is no longer required
             self.cache = {}
+            self.doPostLoadProcessing()
             vPrint( 'Info', DEBUGGING_THIS_MODULE, "  Loaded {}.".format( self.name ) )
             return True
-        else: vPrint( 'Info', DEBUGGING_THIS_MODULE, "  Nothing loaded for {}.".format( self.name ) )
+        else: logging.critical( "SwordBibleModule.loadBooks: Nothing loaded for {}".format( self.name ) )
     # end of SwordBibleModule.loadBooks
 
 
-- 
2.43.0


From ead845684cba110043e57ea7be5bc4c6bbdfc5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:16 +0000
Subject: [PATCH 54/91] fix: USFMBible: loading with several processes skips
 blank books, uses the listed file and reloads like loading with one

---
 BibleOrgSys/Formats/USFMBible.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/BibleOrgSys/Formats/USFMBible.py b/BibleOrgSys/Formats/USFMBible.py
index 252d910..0a3e5be 100755
--- a/BibleOrgSys/Formats/USFMBible.py
+++ b/BibleOrgSys/Formats/USFMBible.py
@@ -610,7 +610,7 @@ class USFMBible( Bible ):
     # end of USFMBible.loadBook
 
 
-    def _loadBookMP( self, BBB_Filename_duple ) -> USFMBibleBook:
+    def _loadBookMP( self, BBB_Filename_duple ) -> USFMBibleBook|None:
         """
         Multiprocessing version!
         Load the requested book if it's not already loaded (but doesn't save it as that is not safe for multiprocessing)
@@ -618,15 +618,15 @@ class USFMBible( Bible ):
         Parameter is a 2-tuple containing BBB and the filename.
         Note that self here might not be the original USFMBibleBook class instance!
 
-        Returns the book info.
+        Returns the book info, or None if it was already loaded or is completely blank.
         """
         fnPrint( DEBUGGING_THIS_MODULE, f"USFMBible._loadBookMP( {BBB_Filename_duple} )" )
         #dPrint( 'Info', DEBUGGING_THIS_MODULE, f"USFMBible._loadBookMP( {BBB_Filename_duple} )", id(self) )
 
         BBB, filename = BBB_Filename_duple
-        if BBB in self.books:
+        if BBB in self.books and not ( BBB in self.bookNeedsReloading and self.bookNeedsReloading[BBB] ):
             dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  {} is already loaded -- returning".format( BBB ) )
-            return self.books[BBB] # Already loaded
+            return None # Already loaded
         #if BBB in self.triedLoadingBook:
             #logging.warning( "We had already tried loading USFM {} for {}".format( BBB, self.name ) )
             #return # We've already attempted to load this book
@@ -635,7 +635,10 @@ class USFMBible( Bible ):
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag:
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, '  ' + _("Loading {} from {} from {}…").format( BBB, self.name, self.sourceFolder ) )
         UBB = USFMBibleBook( self, BBB ) # Ensure that we point back to the original instance
-        UBB.load( self.possibleFilenameDict[BBB], self.sourceFolder, self.encoding )
+        UBB.load( filename, self.sourceFolder, self.encoding )
+        if not UBB._rawLines:
+            logging.info( "USFM book {} was completely blank".format( BBB ) )
+            return None
         UBB.validateMarkers() # Usually activates InternalBibleBook.processLines()
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("    Finishing loading USFM book {}.").format( BBB ) )
         return UBB
@@ -666,8 +669,10 @@ class USFMBible( Bible ):
                     assert len(results) == len(self.maximumPossibleFilenameTuples)
                     for bBook in results:
                         #dPrint( 'Info', DEBUGGING_THIS_MODULE, f"Stashing {bBook.BBB} {id(bBook)} with {id(bBook.containerBibleObject)}" )
+                        if bBook is None: continue # It was already loaded or was completely blank
                         bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
                         self.stashBook( bBook ) # Saves them in the correct order
+                        self.bookNeedsReloading[bBook.BBB] = False
                 BibleOrgSysGlobals.alreadyMultiprocessing = False
             else: # Just single threaded
                 # Load the books one by one -- assuming that they have regular Paratext style filenames
-- 
2.43.0


From 9e6065ea8dbb201d0b47d3bd1f487d59e4fe1c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:16 +0000
Subject: [PATCH 55/91] fix: USFM2Bible: loading with several processes skips
 blank books, uses the listed file and reloads like loading with one

---
 BibleOrgSys/Formats/USFM2Bible.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Formats/USFM2Bible.py b/BibleOrgSys/Formats/USFM2Bible.py
index 8759e54..6709ff9 100755
--- a/BibleOrgSys/Formats/USFM2Bible.py
+++ b/BibleOrgSys/Formats/USFM2Bible.py
@@ -637,14 +637,14 @@ class USFM2Bible( Bible ):
 
         Parameter is a 2-tuple containing BBB and the filename.
 
-        Returns the book info.
+        Returns the book info, or None if it was already loaded or is completely blank.
         """
         fnPrint( DEBUGGING_THIS_MODULE, "loadBookMP( {} )".format( BBB_Filename_duple ) )
 
         BBB, filename = BBB_Filename_duple
-        if BBB in self.books:
+        if BBB in self.books and not ( BBB in self.bookNeedsReloading and self.bookNeedsReloading[BBB] ):
             dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  {} is already loaded -- returning".format( BBB ) )
-            return self.books[BBB] # Already loaded
+            return None # Already loaded
         #if BBB in self.triedLoadingBook:
             #logging.warning( "We had already tried loading USFM2 {} for {}".format( BBB, self.name ) )
             #return # We've already attempted to load this book
@@ -653,7 +653,10 @@ class USFM2Bible( Bible ):
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag:
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, '  ' + _("Loading {} from {} from {}…").format( BBB, self.name, self.sourceFolder ) )
         UBB = USFM2BibleBook( self, BBB )
-        UBB.load( self.possibleFilenameDict[BBB], self.sourceFolder, self.encoding )
+        UBB.load( filename, self.sourceFolder, self.encoding )
+        if not UBB._rawLines:
+            logging.info( "USFM2 book {} was completely blank".format( BBB ) )
+            return None
         UBB.validateMarkers() # Usually activates InternalBibleBook.processLines()
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("    Finishing loading USFM2 book {}.").format( BBB ) )
         return UBB
@@ -681,8 +684,10 @@ class USFM2Bible( Bible ):
                     results = pool.map( self._loadBookMP, self.maximumPossibleFilenameTuples ) # have the pool do our loads
                     assert len(results) == len(self.maximumPossibleFilenameTuples)
                     for bBook in results:
+                        if bBook is None: continue # It was already loaded or was completely blank
                         bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
                         self.stashBook( bBook ) # Saves them in the correct order
+                        self.bookNeedsReloading[bBook.BBB] = False
                 BibleOrgSysGlobals.alreadyMultiprocessing = False
             else: # Just single threaded
                 # Load the books one by one -- assuming that they have regular Paratext style filenames
-- 
2.43.0


From e6dc9221c6988fdc1a5eb1dddf872d657ee30624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:16 +0000
Subject: [PATCH 56/91] fix: PTX7Bible: loading with several processes skips
 blank books, uses the listed file and reloads like loading with one

---
 BibleOrgSys/Formats/PTX7Bible.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Formats/PTX7Bible.py b/BibleOrgSys/Formats/PTX7Bible.py
index 5ddf4f8..a0ad182 100755
--- a/BibleOrgSys/Formats/PTX7Bible.py
+++ b/BibleOrgSys/Formats/PTX7Bible.py
@@ -1732,9 +1732,9 @@ class PTX7Bible( Bible ):
         fnPrint( DEBUGGING_THIS_MODULE, "loadBookMP( {} )".format( BBB_Filename ) )
 
         BBB, filename = BBB_Filename
-        if BBB in self.books:
+        if BBB in self.books and not ( BBB in self.bookNeedsReloading and self.bookNeedsReloading[BBB] ):
             dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  {} is already loaded -- returning".format( BBB ) )
-            return self.books[BBB] # Already loaded
+            return None # Already loaded
         #if BBB in self.triedLoadingBook:
             #logging.warning( "We had already tried loading USFM {} for {}".format( BBB, self.name ) )
             #return # We've already attempted to load this book
@@ -1742,7 +1742,10 @@ class PTX7Bible( Bible ):
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag:
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, '  ' + _("Loading {} from {} from {}…").format( BBB, self.name, self.sourceFolder ) )
         UBB = USFM2BibleBook( self, BBB )
-        UBB.load( self.possibleFilenameDict[BBB], self.sourceFolder, self.encoding )
+        UBB.load( filename, self.sourceFolder, self.encoding )
+        if not UBB._rawLines:
+            logging.info( "USFM book {} was completely blank".format( BBB ) )
+            return None
         UBB.validateMarkers() # Usually activates InternalBibleBook.processLines()
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("    Finishing loading USFM book {}.").format( BBB ) )
         return UBB
@@ -1770,8 +1773,10 @@ class PTX7Bible( Bible ):
                     results = pool.map( self._loadBookMP, self.maximumPossibleFilenameTuples ) # have the pool do our loads
                     assert len(results) == len(self.maximumPossibleFilenameTuples)
                     for bBook in results:
+                        if bBook is None: continue # It was already loaded or was completely blank
                         bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
                         self.stashBook( bBook ) # Saves them in the correct order
+                        self.bookNeedsReloading[bBook.BBB] = False
                 BibleOrgSysGlobals.alreadyMultiprocessing = False
             else: # Just single threaded
                 # Load the books one by one -- assuming that they have regular Paratext style filenames
-- 
2.43.0


From 26dc294a3644f545124f432a03284b19a13958dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:30 +0000
Subject: [PATCH 57/91] fix: PTX8Bible: loading with several processes copes
 with loaded books, skips blank books and uses the listed file

---
 BibleOrgSys/Formats/PTX8Bible.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/BibleOrgSys/Formats/PTX8Bible.py b/BibleOrgSys/Formats/PTX8Bible.py
index fb5ee4a..9753f67 100755
--- a/BibleOrgSys/Formats/PTX8Bible.py
+++ b/BibleOrgSys/Formats/PTX8Bible.py
@@ -2825,20 +2825,22 @@ class PTX8Bible( Bible ):
         if BBB not in self.bookNeedsReloading or not self.bookNeedsReloading[BBB]:
             if BBB in self.books:
                 dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  {} is already loaded -- returning".format( BBB ) )
-                return # Already loaded
+                return None, None # Already loaded
             if BBB in self.triedLoadingBook:
                 logging.warning( "We had already tried loading PTX8 USFM {} for {}".format( BBB, self.name ) )
-                return # We've already attempted to load this book
+                return None, None # We've already attempted to load this book
         self.triedLoadingBook[BBB] = True
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag:
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, '  ' + "Loading {} from {} from {}…".format( BBB, self.name, self.sourceFolder ) )
         if filename is None and BBB in self.possibleFilenameDict: filename = self.possibleFilenameDict[BBB]
         if filename is None: raise FileNotFoundError( "PTX8Bible._loadBookMP: Unable to find file for {}".format( BBB ) )
         UBB = USFMBibleBook( self, BBB )
-        UBB.load( self.possibleFilenameDict[BBB], self.sourceFolder, self.encoding )
-        if UBB._rawLines:
-            UBB.validateMarkers() # Usually activates InternalBibleBook.processLines()
-        else: logging.info( "PTX8 USFM book {} was completely blank".format( BBB ) )
+        UBB.load( filename, self.sourceFolder, self.encoding )
+        bookfilepath = os.path.join( self.sourceFolder, filename )
+        if not UBB._rawLines:
+            logging.info( "PTX8 USFM book {} was completely blank".format( BBB ) )
+            return bookfilepath, None
+        UBB.validateMarkers() # Usually activates InternalBibleBook.processLines()
         self.bookNeedsReloading[BBB] = False
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("    Finishing loading USFM book {}.").format( BBB ) )
         return UBB
@@ -2864,11 +2866,14 @@ class PTX8Bible( Bible ):
                 with multiprocessing.Pool( processes=BibleOrgSysGlobals.maxProcesses ) as pool: # start worker processes
                     results = pool.map( self._loadBookMP, self.maximumPossibleFilenameTuples ) # have the pool do our loads
                     assert len(results) == len(self.maximumPossibleFilenameTuples)
-                    for bBook in results:
-                        bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
-                        self.stashBook( bBook ) # Saves them in the correct order
-                        try: self.filepathsNotYetLoaded.remove( bBook.sourceFilepath ) # Can't do this in _loadBookMP() because it's not atomic
-                        except ValueError: logging.critical( "PTX8 {} book file seemed unexpected: {}".format( bBook.BBB, bBook.sourceFilepath ) )
+                    for bookfilepath,bBook in results:
+                        if bookfilepath is None: continue # It was already loaded
+                        if bBook is not None: # It wasn't completely blank
+                            bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
+                            self.stashBook( bBook ) # Saves them in the correct order
+                            self.bookNeedsReloading[bBook.BBB] = False
+                        try: self.filepathsNotYetLoaded.remove( bookfilepath ) # Can't do this in _loadBookMP() because it's not atomic
+                        except ValueError: logging.critical( "PTX8 book file seemed unexpected: {}".format( bookfilepath ) )
                 BibleOrgSysGlobals.alreadyMultiprocessing = False
             else: # Just single threaded
                 # Load the books one by one -- assuming that they have regular Paratext style filenames
-- 
2.43.0


From 7c2931df2ba86e21c7b55f5b57a400d8caf4c96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:30 +0000
Subject: [PATCH 58/91] fix: ESFMBible: loading with several processes copes
 with loaded books, skips blank books and uses the listed file

---
 BibleOrgSys/Formats/ESFMBible.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/ESFMBible.py b/BibleOrgSys/Formats/ESFMBible.py
index 6435d3a..89a6915 100755
--- a/BibleOrgSys/Formats/ESFMBible.py
+++ b/BibleOrgSys/Formats/ESFMBible.py
@@ -516,13 +516,16 @@ class ESFMBible( Bible ):
         """
         fnPrint( DEBUGGING_THIS_MODULE, "ESFMBible.loadBookMP( {} )".format( BBB_Filename ) )
         BBB, filename = BBB_Filename
-        assert BBB not in self.books
+        if BBB in self.books: return None # Already loaded
         if BBB in self.dontLoadBook: return None
         self.triedLoadingBook[BBB] = True
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag:
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("  ESFMBible: Loading {} from {} from {}…").format( BBB, self.name, self.sourceFolder ) )
         EBB = ESFMBibleBook( self, BBB )
-        EBB.load( self.possibleFilenameDict[BBB], self.sourceFolder )
+        EBB.load( filename, self.sourceFolder )
+        if not EBB._rawLines:
+            logging.info( "ESFM book {} was completely blank".format( BBB ) )
+            return None
         EBB.validateMarkers() # Usually activates InternalBibleBook.processLines()
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("    Finishing loading ESFM book {}.").format( BBB ) )
         return EBB
-- 
2.43.0


From 1bd92428c18282f72d0ef086d22d720674fb69bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:30 +0000
Subject: [PATCH 59/91] fix: BCVBible: loading with several processes does the
 same as loading with one

---
 BibleOrgSys/Formats/BCVBible.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/BCVBible.py b/BibleOrgSys/Formats/BCVBible.py
index 72bc2b5..aace79a 100755
--- a/BibleOrgSys/Formats/BCVBible.py
+++ b/BibleOrgSys/Formats/BCVBible.py
@@ -338,13 +338,16 @@ class BCVBible( Bible ):
         Load the requested book if it's not already loaded (but doesn't save it as that is not safe for multiprocessing)
         """
         fnPrint( DEBUGGING_THIS_MODULE, _("loadBookMP( {} )").format( BBB ) )
-        assert BBB not in self.books
+        if BBB in self.books: return None # Already loaded
         self.triedLoadingBook[BBB] = True
         if BBB in self.givenBookList:
             if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag:
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, '  ' + "Loading {} from {} from {}…".format( BBB, self.name, self.sourceFolder ) )
             bcvBB = BCVBibleBook( self, BBB )
             bcvBB.load( self.sourceFolder )
+            if not bcvBB._processedLines:
+                logging.info( "BCV book {} was completely blank".format( BBB ) )
+                return None
             bcvBB.validateMarkers()
             if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("    Finishing loading BCV book {}.").format( BBB ) )
             return bcvBB
@@ -361,7 +364,8 @@ class BCVBible( Bible ):
         if not self.preloadDone: self.preload()
 
         if self.givenBookList:
-            if BibleOrgSysGlobals.maxProcesses > 1: # Load all the books as quickly as possible
+            if BibleOrgSysGlobals.maxProcesses > 1 \
+            and not BibleOrgSysGlobals.alreadyMultiprocessing: # Load all the books as quickly as possible
                 if BibleOrgSysGlobals.verbosityLevel > 1:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("Loading {} BCV books using {} processes…").format( len(self.givenBookList), BibleOrgSysGlobals.maxProcesses ) )
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("  NOTE: Outputs (including error and warning messages) from loading various books may be interspersed.") )
@@ -370,6 +374,7 @@ class BCVBible( Bible ):
                     results = pool.map( self._loadBookMP, self.givenBookList ) # have the pool do our loads
                     assert len(results) == len(self.givenBookList)
                     for bBook in results:
+                        if bBook is None: continue # It was already loaded or was completely blank
                         bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
                         self.stashBook( bBook ) # Saves them in the correct order
                 BibleOrgSysGlobals.alreadyMultiprocessing = False
-- 
2.43.0


From 3af950ae5baa9db5c6f57fbc353ca5a9846f49ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:30 +0000
Subject: [PATCH 60/91] fix: uWNotesBible: loading with several processes does
 the same as loading with one

---
 BibleOrgSys/Formats/uWNotesBible.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Formats/uWNotesBible.py b/BibleOrgSys/Formats/uWNotesBible.py
index 95aff27..1e0d5ef 100755
--- a/BibleOrgSys/Formats/uWNotesBible.py
+++ b/BibleOrgSys/Formats/uWNotesBible.py
@@ -554,8 +554,8 @@ class uWNotesBible( Bible ):
             bcvBB = uWNotesBibleBook( self, BBB )
             bcvBB.load( self.possibleFilenameDict[BBB] )
             if bcvBB._rawLines:
-                self.stashBook( bcvBB )
                 bcvBB.validateMarkers()
+                self.stashBook( bcvBB )
             else: logging.info( "uW Notes book {} was completely blank".format( BBB ) )
             self.availableBBBs.add( BBB )
         else: logging.info( "uW Notes book {} is not listed as being available".format( BBB ) )
@@ -570,13 +570,16 @@ class uWNotesBible( Bible ):
         Parameter is a 2-tuple containing BBB and the filename.
         """
         fnPrint( DEBUGGING_THIS_MODULE, f"loadBookMP( {BBB} )" )
-        assert BBB not in self.books
+        if BBB in self.books: return None # Already loaded
         self.triedLoadingBook[BBB] = True
         if BBB in self.givenBookList:
             if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag:
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, '  ' + "Loading {} from {} from {}…".format( BBB, self.name, self.sourceFolder ) )
             bcvBB = uWNotesBibleBook( self, BBB )
             bcvBB.load( self.possibleFilenameDict[BBB] )
+            if not bcvBB._rawLines:
+                logging.info( "uW Notes book {} was completely blank".format( BBB ) )
+                return None
             bcvBB.validateMarkers()
             if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("    Finishing loading uW Notes book {}.").format( BBB ) )
             return bcvBB
@@ -593,7 +596,8 @@ class uWNotesBible( Bible ):
         if not self.preloadDone: self.preload()
 
         if self.givenBookList:
-            if BibleOrgSysGlobals.maxProcesses > 1: # Load all the books as quickly as possible
+            if BibleOrgSysGlobals.maxProcesses > 1 \
+            and not BibleOrgSysGlobals.alreadyMultiprocessing: # Load all the books as quickly as possible
                 if BibleOrgSysGlobals.verbosityLevel > 1:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("Loading {} uW Notes books using {} processes…").format( len(self.givenBookList), BibleOrgSysGlobals.maxProcesses ) )
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("  NOTE: Outputs (including error and warning messages) from loading various books may be interspersed.") )
@@ -602,6 +606,7 @@ class uWNotesBible( Bible ):
                     results = pool.map( self._loadBookMP, self.givenBookList ) # have the pool do our loads
                     assert len(results) == len(self.givenBookList)
                     for bBook in results:
+                        if bBook is None: continue # It was already loaded or was completely blank
                         bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
                         self.stashBook( bBook ) # Saves them in the correct order
                 BibleOrgSysGlobals.alreadyMultiprocessing = False
-- 
2.43.0


From e83283651b1ca6f7244b7599c5278d5bff0211bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:30 +0000
Subject: [PATCH 61/91] fix: uWOBSBible: loading with several processes does
 the same as loading with one

---
 BibleOrgSys/Formats/uWOBSBible.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Formats/uWOBSBible.py b/BibleOrgSys/Formats/uWOBSBible.py
index a002464..4faf8fa 100755
--- a/BibleOrgSys/Formats/uWOBSBible.py
+++ b/BibleOrgSys/Formats/uWOBSBible.py
@@ -275,8 +275,8 @@ class uWOBSBible( Bible ):
             bcvBB = uWOBSBibleBook( self, BBB )
             bcvBB.load()
             if bcvBB._rawLines:
-                self.stashBook( bcvBB )
                 bcvBB.validateMarkers()
+                self.stashBook( bcvBB )
             else: logging.info( "uW OBS book {} was completely blank".format( BBB ) )
             self.availableBBBs.add( BBB )
         else: logging.info( "uW OBS book {} is not listed as being available".format( BBB ) )
@@ -291,13 +291,16 @@ class uWOBSBible( Bible ):
         Parameter is a 2-tuple containing BBB and the filename.
         """
         fnPrint( DEBUGGING_THIS_MODULE, f"loadBookMP( {BBB} )" )
-        assert BBB not in self.books
+        if BBB in self.books: return None # Already loaded
         self.triedLoadingBook[BBB] = True
         if BBB in self.givenBookList:
             if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag:
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, '  ' + "Loading {} from {} from {}…".format( BBB, self.name, self.sourceFolder ) )
             bcvBB = uWOBSBibleBook( self, BBB )
             bcvBB.load()
+            if not bcvBB._rawLines:
+                logging.info( "uW OBS book {} was completely blank".format( BBB ) )
+                return None
             bcvBB.validateMarkers()
             if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("    Finishing loading uW OBS book {}.").format( BBB ) )
             return bcvBB
@@ -314,7 +317,8 @@ class uWOBSBible( Bible ):
         if not self.preloadDone: self.preload()
 
         if self.givenBookList:
-            if BibleOrgSysGlobals.maxProcesses > 1: # Load all the books as quickly as possible
+            if BibleOrgSysGlobals.maxProcesses > 1 \
+            and not BibleOrgSysGlobals.alreadyMultiprocessing: # Load all the books as quickly as possible
                 if BibleOrgSysGlobals.verbosityLevel > 1:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("Loading {} uW OBS books using {} processes…").format( len(self.givenBookList), BibleOrgSysGlobals.maxProcesses ) )
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("  NOTE: Outputs (including error and warning messages) from loading various books may be interspersed.") )
@@ -323,6 +327,7 @@ class uWOBSBible( Bible ):
                     results = pool.map( self._loadBookMP, self.givenBookList ) # have the pool do our loads
                     assert len(results) == len(self.givenBookList)
                     for bBook in results:
+                        if bBook is None: continue # It was already loaded or was completely blank
                         bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
                         self.stashBook( bBook ) # Saves them in the correct order
                 BibleOrgSysGlobals.alreadyMultiprocessing = False
-- 
2.43.0


From 79af1be55a3e72a91f5f99364cfae4e226f50f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:30 +0000
Subject: [PATCH 62/91] fix: GoBible: loading with several processes copes with
 books that are already loaded

---
 BibleOrgSys/Formats/GoBible.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/GoBible.py b/BibleOrgSys/Formats/GoBible.py
index 89c08df..3c08d5d 100755
--- a/BibleOrgSys/Formats/GoBible.py
+++ b/BibleOrgSys/Formats/GoBible.py
@@ -417,7 +417,7 @@ class GoBible( Bible ):
         Parameter is a 2-tuple containing BBB and the filename.
         """
         fnPrint( DEBUGGING_THIS_MODULE, f"loadBookMP( {BBB} )" )
-        assert BBB not in self.books
+        if BBB in self.books: return None # Already loaded
         self.triedLoadingBook[BBB] = True
         if BBB in self.bookList:
             if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag:
@@ -451,6 +451,7 @@ class GoBible( Bible ):
                     results = pool.map( self._loadBookMP, self.bookList ) # have the pool do our loads
                     assert len(results) == len(self.bookList)
                     for bBook in results:
+                        if bBook is None: continue # It was already loaded
                         bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
                         self.stashBook( bBook ) # Saves them in the correct order
                 BibleOrgSysGlobals.alreadyMultiprocessing = False
-- 
2.43.0


From 520b8de6525d0fea05fdd3dd410977978905e373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:31 +0000
Subject: [PATCH 63/91] fix: PickledBible: stash each book the same way with
 one process as with several

---
 BibleOrgSys/Formats/PickledBible.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Formats/PickledBible.py b/BibleOrgSys/Formats/PickledBible.py
index e1e0f1e..a84d601 100755
--- a/BibleOrgSys/Formats/PickledBible.py
+++ b/BibleOrgSys/Formats/PickledBible.py
@@ -692,7 +692,9 @@ class PickledBible( Bible ):
                 logging.warning( "We had already tried loading Pickle {} for {}".format( BBB, self.name ) )
                 return # We've already attempted to load this book
 
-        self.books[BBB] = self._loadBookEssentials( BBB )
+        bookObject = self._loadBookEssentials( BBB )
+        bookObject.containerBibleObject = self
+        self.stashBook( bookObject )
     # end of PickledBible.loadBook
 
 
@@ -705,9 +707,9 @@ class PickledBible( Bible ):
         """
         fnPrint( DEBUGGING_THIS_MODULE, _("loadBookMP( {} )").format( BBB ) )
 
-        if BBB in self.books:
+        if BBB in self.books and not ( BBB in self.bookNeedsReloading and self.bookNeedsReloading[BBB] ):
             dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  {} is already loaded -- returning".format( BBB ) )
-            return self.books[BBB] # Already loaded
+            return None # Already loaded
         #if BBB in self.triedLoadingBook:
             #logging.warning( "We had already tried loading Pickle {} for {}".format( BBB, self.name ) )
             #return # We've already attempted to load this book
@@ -740,6 +742,7 @@ class PickledBible( Bible ):
                     results = pool.map( self._loadBookMP, self.pickleVersionData['bookList'] ) # have the pool do our loads
                     assert len(results) == len(self.pickleVersionData['bookList'])
                     for bBook in results:
+                        if bBook is None: continue # It was already loaded
                         bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
                         self.stashBook( bBook ) # Saves them in the correct order
                 BibleOrgSysGlobals.alreadyMultiprocessing = False
-- 
2.43.0


From 8d3b734639b79439111d5849248d58a83f721201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:31 +0000
Subject: [PATCH 64/91] fix: USXXMLBible: load the same files with several
 processes as with one

---
 BibleOrgSys/Formats/USXXMLBible.py | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/BibleOrgSys/Formats/USXXMLBible.py b/BibleOrgSys/Formats/USXXMLBible.py
index 49004bf..f6ff982 100755
--- a/BibleOrgSys/Formats/USXXMLBible.py
+++ b/BibleOrgSys/Formats/USXXMLBible.py
@@ -251,10 +251,11 @@ class USXXMLBible( Bible ):
         if self.doExtraChecking:
             assert self.preloadDone
 
-        if BBB in self.books: return # Already loaded
-        if BBB in self.triedLoadingBook:
-            logging.warning( "We had already tried loading USX {} for {}".format( BBB, self.name ) )
-            return # We've already attempted to load this book
+        if BBB not in self.bookNeedsReloading or not self.bookNeedsReloading[BBB]:
+            if BBB in self.books: return # Already loaded
+            if BBB in self.triedLoadingBook:
+                logging.warning( "We had already tried loading USX {} for {}".format( BBB, self.name ) )
+                return # We've already attempted to load this book
         self.triedLoadingBook[BBB] = True
 
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("  USXXMLBible: Loading {} from {} from {}…").format( BBB, self.name, self.sourceFolder ) )
@@ -296,9 +297,7 @@ class USXXMLBible( Bible ):
         if BibleOrgSysGlobals.maxProcesses > 1 \
         and not BibleOrgSysGlobals.alreadyMultiprocessing: # Get our subprocesses ready and waiting for work
             # Load all the books as quickly as possible
-            parameters = []
-            for BBB,filename in self.USXFilenamesObject.getConfirmedFilenameTuples():
-                parameters.append( BBB )
+            parameters = list( self.possibleFilenameDict )
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "parameters", parameters )
             vPrint( 'Normal', DEBUGGING_THIS_MODULE, _("Loading {} {} books using {} processes…").format( len(parameters), 'USX', BibleOrgSysGlobals.maxProcesses ) )
             vPrint( 'Normal', DEBUGGING_THIS_MODULE, _("  NOTE: Outputs (including error and warning messages) from loading various books may be interspersed.") )
@@ -307,19 +306,11 @@ class USXXMLBible( Bible ):
                 results = pool.map( self._loadBookMP, parameters ) # have the pool do our loads
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "results", results )
                 #assert len(results) == len(parameters)
-                for j, UBB in enumerate( results ):
-                    BBB = parameters[j]
-                    #self.books[BBB] = UBB
+                for UBB in results:
+                    if UBB is None: continue # It was already loaded
                     UBB.containerBibleObject = self # Because the pickling and unpickling messes this up
-                    self.stashBook( UBB )
-                    # Make up our book name dictionaries while we're at it
-                    assumedBookNames = UBB.getAssumedBookNames()
-                    for assumedBookName in assumedBookNames:
-                        self.BBBToNameDict[BBB] = assumedBookName
-                        assumedBookNameLower = assumedBookName.lower()
-                        self.bookNameDict[assumedBookNameLower] = BBB # Store the deduced book name (just lower case)
-                        self.combinedBookNameDict[assumedBookNameLower] = BBB # Store the deduced book name (just lower case)
-                        if ' ' in assumedBookNameLower: self.combinedBookNameDict[assumedBookNameLower.replace(' ','')] = BBB # Store the deduced book name (lower case without spaces)
+                    self.stashBook( UBB ) # Also saves its names
+                    self.bookNeedsReloading[UBB.BBB] = False
             BibleOrgSysGlobals.alreadyMultiprocessing = False
         else: # Just single threaded
             for BBB,filename in self.possibleFilenameDict.items():
-- 
2.43.0


From 7fea40aa90fb056c10274519e93495f4a6ae2f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:31 +0000
Subject: [PATCH 65/91] fix: OSISXMLBible: keep every book of each file when
 loading with several processes

---
 BibleOrgSys/Formats/OSISXMLBible.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index 9bd9cc0..e76183b 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -379,9 +379,11 @@ class OSISXMLBible( Bible ):
                 with multiprocessing.Pool( processes=BibleOrgSysGlobals.maxProcesses ) as pool: # start worker processes
                     results = pool.map( self._loadBookFileMP, self.possibleFilenames ) # have the pool do our loads
                     assert len(results) == len(self.possibleFilenames)
-                    for bBook,bookLoadErrors in results:
-                        self.stashBook( bBook ) # Saves them in the correct order
-                        loadErrors += bookLoadErrors
+                    for loadedBooks in results:
+                        for loadedBook,bookLoadErrors in loadedBooks:
+                            loadedBook.containerBibleObject = self # Because the pickling and unpickling messes this up
+                            self.stashBook( loadedBook ) # Saves them in the correct order
+                            loadErrors += bookLoadErrors
                 BibleOrgSysGlobals.alreadyMultiprocessing = False
             else: # Just single threaded
                 for filename in self.possibleFilenames:
@@ -459,23 +461,18 @@ class OSISXMLBible( Bible ):
     # end of OSISXMLBible.loadBook function
 
 
-    def _loadBookFileMP( self, XMLBookFilename ) -> BibleBook:
+    def _loadBookFileMP( self, XMLBookFilename ) -> list[tuple[BibleBook,list[str]]]:
         """
         Multiprocessing version!
-        Load the requested book if it's not already loaded (but doesn't save it as that is not safe for multiprocessing)
-
-        Parameter is a 2-tuple containing BBB and the filename.
+        Load the requested book file (but doesn't save the books as that is not safe for multiprocessing)
 
-        Returns the book info.
+        Returns a list of 2-tuples (the book and its load errors).
         """
         fnPrint( DEBUGGING_THIS_MODULE, f"_loadBookFileMP( {XMLBookFilename} )" )
         vPrint( 'Verbose', DEBUGGING_THIS_MODULE, f"  LoadingMP {self.name} book from {XMLBookFilename} from {self.sourceFolder}…" )
 
         pathname = os.path.join( self.sourceFolder, XMLBookFilename )
-        result = self.__loadFile( pathname )
-        assert len(result) == 1 # only one book
-        assert len(result[0]) == 2 # book and errors
-        return result[0]
+        return self.__loadFile( pathname )
     # end of OSISXMLBible._loadBookFileMP function
 
 
@@ -494,7 +491,7 @@ class OSISXMLBible( Bible ):
         except ParseError as err:
             logging.critical( _("Loader parse error in xml file {}: {} {}").format( OSISFilepath, sys.exc_info()[0], err ) )
             loadErrors.append( _("Loader parse error in xml file {}: {} {}").format( OSISFilepath, sys.exc_info()[0], err ) )
-            return
+            return bookList # There's nothing in it
         if BibleOrgSysGlobals.debugFlag: assert self.XMLTree # Fail here if we didn't load anything at all
 
         # Find the main (osis) container
-- 
2.43.0


From 7e9e4ccf4f909bb1d5328200ebeebcfbbfa4e354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:31 +0000
Subject: [PATCH 66/91] fix: SwordModules.loadAllModules: never start a pool
 inside a worker process

---
 BibleOrgSys/Formats/SwordModules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/SwordModules.py b/BibleOrgSys/Formats/SwordModules.py
index 9df13f4..51b683e 100755
--- a/BibleOrgSys/Formats/SwordModules.py
+++ b/BibleOrgSys/Formats/SwordModules.py
@@ -2379,7 +2379,8 @@ class SwordModules:
         vPrint( 'Normal', DEBUGGING_THIS_MODULE, "\nSwordModules.loadAllModules()…" )
         self.inMemoryFlag = inMemoryFlag
         displayCount = loadCount = 0
-        if BibleOrgSysGlobals.maxProcesses > 1: # Get our subprocesses ready and waiting for work
+        if BibleOrgSysGlobals.maxProcesses > 1 \
+        and not BibleOrgSysGlobals.alreadyMultiprocessing: # Get our subprocesses ready and waiting for work
             parameters = [moduleRoughName for moduleRoughName in self.confs]
             BibleOrgSysGlobals.alreadyMultiprocessing = True
             with multiprocessing.Pool( processes=BibleOrgSysGlobals.maxProcesses ) as pool: # start worker processes
-- 
2.43.0


From 3e8117d803c7c6b3488b36e006e1b870a6b9887b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:31 +0000
Subject: [PATCH 67/91] fix: CompareBibles: do the same work with several
 processes as with one

---
 BibleOrgSys/Misc/CompareBibles.py | 35 ++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/BibleOrgSys/Misc/CompareBibles.py b/BibleOrgSys/Misc/CompareBibles.py
index cba8689..8148ad8 100755
--- a/BibleOrgSys/Misc/CompareBibles.py
+++ b/BibleOrgSys/Misc/CompareBibles.py
@@ -683,9 +683,13 @@ def compareBooksPedantic( book1, book2,
     return bcResults
 # end of compareBooksPedantic
 
-def _doCompare( parameters:list[tuple[str,Bible,Bible]] ) -> list[tuple[tuple[str,str,str],str]]: # for multiprocessing
+def _doCompare( parameters:tuple[str,Bible,Bible,dict] ) -> list[tuple[tuple[str,str,str],str]]: # for multiprocessing
+    BBB, Bible1, Bible2, options = parameters
+    return compareBooksPedantic( Bible1[BBB], Bible2[BBB], **options )
+
+def _doSegmentize( parameters:tuple[str,Bible,Bible] ) -> tuple[list,list]: # for multiprocessing
     BBB, Bible1, Bible2 = parameters
-    return compareBooksPedantic( Bible1[BBB], Bible2[BBB] )
+    return segmentizeBooks( Bible1[BBB], Bible2[BBB] )
 
 
 def segmentizeLine( line:str, segmentEndPunctuation:str='.?!;:' ) -> list[list[str]]:
@@ -1002,15 +1006,16 @@ def analyzeBibles( Bible1:Bible, Bible2:Bible ) -> dict[str,list]:
     numBooks = len( commonBooks )
 
     vPrint( 'Info', DEBUGGING_THIS_MODULE, _("Running segmentizeBooks on both Bibles…") )
-    if BibleOrgSysGlobals.maxProcesses > 1: # Check all the books as quickly as possible
+    if BibleOrgSysGlobals.maxProcesses > 1 \
+    and not BibleOrgSysGlobals.alreadyMultiprocessing: # Check all the books as quickly as possible
         vPrint( 'Normal', DEBUGGING_THIS_MODULE, _("Comparing {} books using {} processes…").format( numBooks, BibleOrgSysGlobals.maxProcesses ) )
         vPrint( 'Normal', DEBUGGING_THIS_MODULE, "  NOTE: Outputs (including error and warning messages) from scanning various books may be interspersed." )
         BibleOrgSysGlobals.alreadyMultiprocessing = True
         with multiprocessing.Pool( processes=BibleOrgSysGlobals.maxProcesses ) as pool: # start worker processes
-            results = pool.map( _doCompare, [(BBB,Bible1,Bible2) for BBB in commonBooks] ) # have the pool do our loads
+            results = pool.map( _doSegmentize, [(BBB,Bible1,Bible2) for BBB in commonBooks] ) # have the pool do our loads
             assert len(results) == numBooks
             for j,BBB in enumerate( commonBooks ):
-                bResults[BBB] = results[j] # Saves them in the correct order
+                bSegmentList[BBB], bResults[BBB] = results[j] # Saves them in the correct order
         BibleOrgSysGlobals.alreadyMultiprocessing = False
     else: # Just single threaded
         for BBB in commonBooks: # Do individual book prechecks
@@ -1057,13 +1062,20 @@ def compareBibles( Bible1, Bible2,
     numBooks = len( commonBooks )
 
     vPrint( 'Info', DEBUGGING_THIS_MODULE, _("Running compareBooksPedantic on both Bibles…") )
+    options = dict( compareQuotes=compareQuotes, comparePunctuation=comparePunctuation, compareDigits=compareDigits,
+                    illegalCleanTextOnlyStrings1=illegalCleanTextOnlyStrings1, illegalCleanTextOnlyStrings2=illegalCleanTextOnlyStrings2,
+                    illegalCompleteLineStrings1=illegalCompleteLineStrings1, illegalCompleteLineStrings2=illegalCompleteLineStrings2,
+                    legalPairs1=legalPairs1, legalPairs2=legalPairs2, matchingPairs=matchingPairs,
+                    illegalCompleteLineRegexes1=illegalCompleteLineRegexes1, illegalCompleteLineRegexes2=illegalCompleteLineRegexes2,
+                    breakOnOne=breakOnOne )
     bResults = {}
-    if BibleOrgSysGlobals.maxProcesses > 1: # Check all the books as quickly as possible
+    if BibleOrgSysGlobals.maxProcesses > 1 \
+    and not BibleOrgSysGlobals.alreadyMultiprocessing: # Check all the books as quickly as possible
         vPrint( 'Normal', DEBUGGING_THIS_MODULE, _("Comparing {} books using {} processes…").format( numBooks, BibleOrgSysGlobals.maxProcesses ) )
         vPrint( 'Normal', DEBUGGING_THIS_MODULE, "  NOTE: Outputs (including error and warning messages) from scanning various books may be interspersed." )
         BibleOrgSysGlobals.alreadyMultiprocessing = True
         with multiprocessing.Pool( processes=BibleOrgSysGlobals.maxProcesses ) as pool: # start worker processes
-            results = pool.map( _doCompare, [(BBB,Bible1,Bible2) for BBB in commonBooks] ) # have the pool do our loads
+            results = pool.map( _doCompare, [(BBB,Bible1,Bible2,options) for BBB in commonBooks] ) # have the pool do our loads
             assert len(results) == numBooks
             for j,BBB in enumerate( commonBooks ):
                 bResults[BBB] = results[j] # Saves them in the correct order
@@ -1071,14 +1083,7 @@ def compareBibles( Bible1, Bible2,
     else: # Just single threaded
         for BBB in commonBooks: # Do individual book prechecks
             vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "  " + _("Comparing {}…").format( BBB ) )
-            bResults[BBB] = compareBooksPedantic( Bible1[BBB], Bible2[BBB], compareQuotes=compareQuotes,
-                                                comparePunctuation=comparePunctuation, compareDigits=compareDigits,
-                                                illegalCleanTextOnlyStrings1=illegalCleanTextOnlyStrings1, illegalCleanTextOnlyStrings2=illegalCleanTextOnlyStrings2,
-                                                illegalCompleteLineStrings1=illegalCompleteLineStrings1, illegalCompleteLineStrings2=illegalCompleteLineStrings2,
-                                                legalPairs1=legalPairs1, legalPairs2=legalPairs2,
-                                                matchingPairs=matchingPairs,
-                                                illegalCompleteLineRegexes1=illegalCompleteLineRegexes1, illegalCompleteLineRegexes2=illegalCompleteLineRegexes2,
-                                                breakOnOne=breakOnOne )
+            bResults[BBB] = _doCompare( (BBB,Bible1,Bible2,options) )
     return bResults
 # end of CompareBibles.compareBibles
 
-- 
2.43.0


From 0d569d17781b1469cd15588ff7eac00f82527ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 68/91] fix: PTX8Bible: the worker returns the path of the file
 along with the book

---
 BibleOrgSys/Formats/PTX8Bible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/PTX8Bible.py b/BibleOrgSys/Formats/PTX8Bible.py
index 9753f67..ce1631e 100755
--- a/BibleOrgSys/Formats/PTX8Bible.py
+++ b/BibleOrgSys/Formats/PTX8Bible.py
@@ -2843,7 +2843,7 @@ class PTX8Bible( Bible ):
         UBB.validateMarkers() # Usually activates InternalBibleBook.processLines()
         self.bookNeedsReloading[BBB] = False
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("    Finishing loading USFM book {}.").format( BBB ) )
-        return UBB
+        return bookfilepath, UBB
     # end of PTX8Bible._loadBookMP
 
 
-- 
2.43.0


From 6348c705c936076c154149dfcaee1c780893a00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:37 +0000
Subject: [PATCH 69/91] fix: USFMBible, PTX8Bible: remember that the text has
 alignments when loading with several processes

---
 BibleOrgSys/Formats/PTX8Bible.py | 1 +
 BibleOrgSys/Formats/USFMBible.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/BibleOrgSys/Formats/PTX8Bible.py b/BibleOrgSys/Formats/PTX8Bible.py
index ce1631e..f9c6057 100755
--- a/BibleOrgSys/Formats/PTX8Bible.py
+++ b/BibleOrgSys/Formats/PTX8Bible.py
@@ -2871,6 +2871,7 @@ class PTX8Bible( Bible ):
                         if bBook is not None: # It wasn't completely blank
                             bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
                             self.stashBook( bBook ) # Saves them in the correct order
+                            if 'uWalignments' in bBook.__dict__: self.uWencoded = True # The worker could only set this in its own copy
                             self.bookNeedsReloading[bBook.BBB] = False
                         try: self.filepathsNotYetLoaded.remove( bookfilepath ) # Can't do this in _loadBookMP() because it's not atomic
                         except ValueError: logging.critical( "PTX8 book file seemed unexpected: {}".format( bookfilepath ) )
diff --git a/BibleOrgSys/Formats/USFMBible.py b/BibleOrgSys/Formats/USFMBible.py
index 0a3e5be..d7d0ae1 100755
--- a/BibleOrgSys/Formats/USFMBible.py
+++ b/BibleOrgSys/Formats/USFMBible.py
@@ -672,6 +672,7 @@ class USFMBible( Bible ):
                         if bBook is None: continue # It was already loaded or was completely blank
                         bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
                         self.stashBook( bBook ) # Saves them in the correct order
+                        if 'uWalignments' in bBook.__dict__: self.uWencoded = True # The worker could only set this in its own copy
                         self.bookNeedsReloading[bBook.BBB] = False
                 BibleOrgSysGlobals.alreadyMultiprocessing = False
             else: # Just single threaded
-- 
2.43.0


From 85c33c1d0b3e4fafa90c6916a0166ebfa2128a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:29 +0000
Subject: [PATCH 70/91] fix: CSVBible: report the lines that are skipped before
 the first book

---
 BibleOrgSys/Formats/CSVBible.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Formats/CSVBible.py b/BibleOrgSys/Formats/CSVBible.py
index 5bffcc3..361e5fb 100755
--- a/BibleOrgSys/Formats/CSVBible.py
+++ b/BibleOrgSys/Formats/CSVBible.py
@@ -297,7 +297,9 @@ class CSVBible( Bible ):
                     elif ',' in line:
                         separator = ','
                         numColumns = line.count( ',' ) + 1 # Might be wrong if text is quoted
-                    if not separator: continue # keep searching
+                    if not separator:
+                        logging.warning( f"CSVBible: skipped line {lineCount} with no separator in {self.givenName}: {line!r}" )
+                        continue # keep searching
                 if lineCount <= 3: dPrint( 'Info', DEBUGGING_THIS_MODULE, f"{lineCount}: {separator=} {numColumns=} {quoted=} {BBB=}" )
 
                 bits = line.split( separator, numColumns-1 )
@@ -308,7 +310,7 @@ class CSVBible( Bible ):
                 elif len(bits) == 2:
                     refString, vText = bits
                     if BBB is None and refString.count(':') != 1:
-                        dPrint( 'Info', DEBUGGING_THIS_MODULE, f"Skipping the rest of line because no BBB yet: {lineCount}: {bits} '{line}'" )
+                        logging.warning( f"CSVBible: skipped line {lineCount} because no book yet in {self.givenName}: {line!r}" )
                         continue # Still in header lines ???
                     booknameString, CV = refString.rsplit( ' ', 1) # e.g., Genesis 1:1, 3 John 1:2, Song of Songs 2:3
                     assert 0 <= booknameString.count( ' ' ) <= 3, f"{booknameString=}"
@@ -339,7 +341,7 @@ class CSVBible( Bible ):
                     if BBB:
                         bookNumber = BibleOrgSysGlobals.loadedBibleBooksCodes.getReferenceNumber( BBB )
                 if lastBookNumber==-1 and not BBB:
-                    dPrint( 'Never', DEBUGGING_THIS_MODULE, f"Skipping the rest of introductory line because no BBB yet: {lineCount}: '{line}'" )
+                    logging.warning( f"CSVBible: skipped introductory line {lineCount} because no book yet in {self.givenName}: {line!r}" )
                     continue
 
                 chapterNumber = int( chapterNumberString )
-- 
2.43.0


From 2e1a0c29b036251c549183cac4e5c7bafff84168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:29 +0000
Subject: [PATCH 71/91] fix: CSVBible: load files that give the books as
 numbers

---
 BibleOrgSys/Formats/CSVBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/CSVBible.py b/BibleOrgSys/Formats/CSVBible.py
index 361e5fb..830329b 100755
--- a/BibleOrgSys/Formats/CSVBible.py
+++ b/BibleOrgSys/Formats/CSVBible.py
@@ -340,7 +340,7 @@ class CSVBible( Bible ):
                     BBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromText( booknameString )
                     if BBB:
                         bookNumber = BibleOrgSysGlobals.loadedBibleBooksCodes.getReferenceNumber( BBB )
-                if lastBookNumber==-1 and not BBB:
+                if lastBookNumber==-1 and bookNumber==-1:
                     logging.warning( f"CSVBible: skipped introductory line {lineCount} because no book yet in {self.givenName}: {line!r}" )
                     continue
 
-- 
2.43.0


From 2bf71101a4e14d4b515649132766762e1ad67159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:29 +0000
Subject: [PATCH 72/91] fix: YETBible: keep the long name, description and
 locale, and report bad book_name lines

---
 BibleOrgSys/Formats/YETBible.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/YETBible.py b/BibleOrgSys/Formats/YETBible.py
index fb98f63..aa904f0 100755
--- a/BibleOrgSys/Formats/YETBible.py
+++ b/BibleOrgSys/Formats/YETBible.py
@@ -268,6 +268,7 @@ class YETBible( Bible ):
 
         # Read all the lines into bookDict
         lastLine, lineCount = '', 0
+        settingsDict = {}
         bookNameDict, bookDict, footnoteDict, xrefDict, headingDict = {}, {}, {}, {}, {}
         BBB = bookNumberString = chapterNumberString = verseNumberString = encodedVerseString = ''
         lastBBB = lastBookNumberString = lastChapterNumberString = lastVerseNumberString = None
@@ -290,13 +291,14 @@ class YETBible( Bible ):
                         shortName = bits[2]
                         self.name = shortName
                     elif bits[1] == 'longName':
-                        longName = bits[2]
+                        settingsDict['longName'] = bits[2]
                     elif bits[1] == 'description':
-                        description = bits[2]
+                        settingsDict['description'] = bits[2]
                     elif bits[1] == 'locale':
                         locale = bits[2]
                         if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag: assert 2 <= len(locale) <= 3
                         if locale == 'in': locale = 'id' # Fix a quirk in the locale encoding
+                        settingsDict['locale'] = locale
                     else:
                         logging.warning( _("YETBible: unknown {} info field in {} {} {}:{}") \
                             .format( repr(bits[1]), self.givenName, BBB, chapterNumberString, verseNumberString ) )
@@ -308,6 +310,8 @@ class YETBible( Bible ):
                         bookNameDict[thisBBB] = bits[2], ''
                     elif len(bits) == 4:
                         bookNameDict[thisBBB] = bits[2], bits[3]
+                    else:
+                        logging.warning( f"YETBible: bad book_name line {lineCount} in {self.givenName}: {line!r}" )
                     continue
                 elif bits[0] == 'verse':
                     if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag: assert len(bits) == 5
@@ -380,6 +384,9 @@ class YETBible( Bible ):
                 else: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "YETBible: Unknown line type", self.givenName, BBB, chapterNumberString, verseNumberString, len(bits), bits ); halt
             bookDict[lastBBB] = bookLines # Save the last book
 
+        if settingsDict:
+            if self.suppliedMetadata is None: self.suppliedMetadata = {}
+            self.suppliedMetadata['YET'] = settingsDict
 
         # Now process the books
         for BBB,bkData in bookDict.items():
-- 
2.43.0


From 8524c4b7884486c2126247136d01e28ae5478ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:29 +0000
Subject: [PATCH 73/91] fix: PTX7Bible, PTX8Bible: report lines that are too
 short

---
 BibleOrgSys/Formats/PTX7Bible.py | 2 +-
 BibleOrgSys/Formats/PTX8Bible.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/PTX7Bible.py b/BibleOrgSys/Formats/PTX7Bible.py
index a0ad182..e4d17d6 100755
--- a/BibleOrgSys/Formats/PTX7Bible.py
+++ b/BibleOrgSys/Formats/PTX7Bible.py
@@ -382,7 +382,7 @@ def loadPTX7Languages( BibleObject ):
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "line", repr(line) )
 
                 if len(line)<5:
-                    vPrint( 'Never', DEBUGGING_THIS_MODULE, "Why was line #{} so short? {!r}".format( lineCount, line ) )
+                    vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Why was line #{} so short? {!r}".format( lineCount, line ) )
                     continue
 
                 if line[0]=='[' and line[-1]==']': # it's a new section name
diff --git a/BibleOrgSys/Formats/PTX8Bible.py b/BibleOrgSys/Formats/PTX8Bible.py
index f9c6057..b1c147c 100755
--- a/BibleOrgSys/Formats/PTX8Bible.py
+++ b/BibleOrgSys/Formats/PTX8Bible.py
@@ -410,7 +410,7 @@ def loadPTX8Versifications( BibleObject ):
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, versificationName, "versification line", repr(line) )
 
                 if len(line)<7:
-                    vPrint( 'Never', DEBUGGING_THIS_MODULE, "Why was line #{} so short? {!r}".format( lineCount, line ) )
+                    vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Why was line #{} so short? {!r}".format( lineCount, line ) )
                     continue
 
                 if line.startswith( '#! -' ): # It's an excluded verse (or passage???)
-- 
2.43.0


From 6508a3ae79193c546437ffa42018b835617a12df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:29 +0000
Subject: [PATCH 74/91] fix: uWNotesBible: report YAML lines that the loader
 does not understand

---
 BibleOrgSys/Formats/uWNotesBible.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/BibleOrgSys/Formats/uWNotesBible.py b/BibleOrgSys/Formats/uWNotesBible.py
index 1e0d5ef..c62d04e 100755
--- a/BibleOrgSys/Formats/uWNotesBible.py
+++ b/BibleOrgSys/Formats/uWNotesBible.py
@@ -331,6 +331,9 @@ def loadYAML( YAMLFilepath ) -> dict[str,Any]:
                         if key2 not in dataDict[key1]: dataDict[key1][key2] = [{}]
                         else: assert isinstance( dataDict[key1][key2], list )
                         dataDict[key1][key2][-1][match.group(1)] = match.group(2); continue
+
+                # If we get here, none of the above was able to use the line
+                logging.warning( f"loadYAML: unable to use line {j} of {YAMLFilepath}: {line!r}" )
     else:
         logging.critical( f"loadYAML: Unable to load and YAML from {YAMLFilepath}" )
         return None
-- 
2.43.0


From dabe8b59516597bdd4050a93b959bc54dae66527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:30 +0000
Subject: [PATCH 75/91] fix: reference-table converters report attributes and
 children of the elements in a record

---
 .../Reference/Converters/BibleBookOrdersConverter.py     | 2 ++
 .../Reference/Converters/BibleBooksCodesConverter.py     | 2 ++
 .../Reference/Converters/BibleBooksNamesConverter.py     | 2 ++
 .../Converters/BibleOrganisationalSystemsConverter.py    | 2 ++
 .../Converters/BiblePunctuationSystemsConverter.py       | 2 ++
 .../Converters/BibleReferencesLinksConverter.py          | 9 +++++++++
 .../Converters/BibleVersificationSystemsConverter.py     | 4 ++++
 .../Reference/Converters/USFM2MarkersConverter.py        | 2 ++
 .../Reference/Converters/USFM3MarkersConverter.py        | 2 ++
 9 files changed, 27 insertions(+)

diff --git a/BibleOrgSys/Reference/Converters/BibleBookOrdersConverter.py b/BibleOrgSys/Reference/Converters/BibleBookOrdersConverter.py
index 5c0e4ca..7128618 100755
--- a/BibleOrgSys/Reference/Converters/BibleBookOrdersConverter.py
+++ b/BibleOrgSys/Reference/Converters/BibleBookOrdersConverter.py
@@ -217,6 +217,8 @@ class BibleBookOrdersConverter:
                 for subelement in element:
                     if subelement.tag not in self.compulsoryElements and subelement.tag not in self.optionalElements:
                         logging.warning( _("Additional {!r} element ({!r}) found in record with ID {!r} (record {})").format( subelement.tag, subelement.text, ID, k ) )
+                    BibleOrgSysGlobals.checkXMLNoAttributes( subelement, "{} in record {}".format( subelement.tag, k ) )
+                    BibleOrgSysGlobals.checkXMLNoSubelements( subelement, "{} in record {}".format( subelement.tag, k ) )
 
                 # Check the elements that must contain unique information (in that particular element -- doesn't check across different elements)
                 for elementName in self.uniqueElements:
diff --git a/BibleOrgSys/Reference/Converters/BibleBooksCodesConverter.py b/BibleOrgSys/Reference/Converters/BibleBooksCodesConverter.py
index 117b526..48c1b21 100755
--- a/BibleOrgSys/Reference/Converters/BibleBooksCodesConverter.py
+++ b/BibleOrgSys/Reference/Converters/BibleBooksCodesConverter.py
@@ -241,6 +241,8 @@ class BibleBooksCodesConverter:
                 for subelement in element:
                     if subelement.tag not in self._compulsoryElements and subelement.tag not in self._optionalElements:
                         logging.warning( _("Additional {!r} element ({!r}) found in record with ID {!r} (record {})").format( subelement.tag, subelement.text, ID, j ) )
+                    BibleOrgSysGlobals.checkXMLNoAttributes( subelement, "{} in record {}".format( subelement.tag, j ) )
+                    BibleOrgSysGlobals.checkXMLNoSubelements( subelement, "{} in record {}".format( subelement.tag, j ) )
 
                 # Check the elements that must contain unique information (in that particular element -- doesn't check across different elements)
                 for elementName in self._ElementsWithoutDuplicates:
diff --git a/BibleOrgSys/Reference/Converters/BibleBooksNamesConverter.py b/BibleOrgSys/Reference/Converters/BibleBooksNamesConverter.py
index ded65eb..2e8aac1 100755
--- a/BibleOrgSys/Reference/Converters/BibleBooksNamesConverter.py
+++ b/BibleOrgSys/Reference/Converters/BibleBooksNamesConverter.py
@@ -213,6 +213,8 @@ class BibleBooksNamesConverter:
                 for subelement in element:
                     if subelement.tag not in self.compulsoryElements[index] and subelement.tag not in self.optionalElements[index]:
                         logging.warning( _("Additional {!r} element ({!r}) found (record {}) in {} {}").format( subelement.tag, subelement.text, k, systemName, element.tag ) )
+                    BibleOrgSysGlobals.checkXMLNoAttributes( subelement, "{} in record {}".format( subelement.tag, k ) )
+                    BibleOrgSysGlobals.checkXMLNoSubelements( subelement, "{} in record {}".format( subelement.tag, k ) )
 
                 # Check the elements that must contain unique information (in that particular element -- doesn't check across different elements)
                 for elementName in self.uniqueElements[index]:
diff --git a/BibleOrgSys/Reference/Converters/BibleOrganisationalSystemsConverter.py b/BibleOrgSys/Reference/Converters/BibleOrganisationalSystemsConverter.py
index 9f97201..e2b828c 100755
--- a/BibleOrgSys/Reference/Converters/BibleOrganisationalSystemsConverter.py
+++ b/BibleOrgSys/Reference/Converters/BibleOrganisationalSystemsConverter.py
@@ -238,6 +238,8 @@ class BibleOrganisationalSystemsConverter:
                 for subelement in element:
                     if subelement.tag not in self._compulsoryElements and subelement.tag not in self._optionalElements:
                         logging.warning( _("Additional {!r} element ({!r}) found in record with ID {!r} (record {})").format( subelement.tag, subelement.text, ID, j ) )
+                    BibleOrgSysGlobals.checkXMLNoAttributes( subelement, "{} in record {}".format( subelement.tag, j ) )
+                    BibleOrgSysGlobals.checkXMLNoSubelements( subelement, "{} in record {}".format( subelement.tag, j ) )
 
                 # Check the elements that must contain unique information (in that particular element -- doesn't check across different elements)
                 for elementName in self._uniqueElements:
diff --git a/BibleOrgSys/Reference/Converters/BiblePunctuationSystemsConverter.py b/BibleOrgSys/Reference/Converters/BiblePunctuationSystemsConverter.py
index 8b8e63e..c0ff11b 100755
--- a/BibleOrgSys/Reference/Converters/BiblePunctuationSystemsConverter.py
+++ b/BibleOrgSys/Reference/Converters/BiblePunctuationSystemsConverter.py
@@ -206,6 +206,8 @@ class BiblePunctuationSystemsConverter:
                 for subelement in element:
                     if subelement.tag not in self.compulsoryElements and subelement.tag not in self.optionalElements:
                         logging.warning( _("Additional {!r} element ({!r}) found in record {}").format( subelement.tag, subelement.text, k ) )
+                    BibleOrgSysGlobals.checkXMLNoAttributes( subelement, "{} in record {}".format( subelement.tag, k ) )
+                    BibleOrgSysGlobals.checkXMLNoSubelements( subelement, "{} in record {}".format( subelement.tag, k ) )
 
                 # Check the elements that must contain unique information (in that particular element -- doesn't check across different elements)
                 for elementName in self.uniqueElements:
diff --git a/BibleOrgSys/Reference/Converters/BibleReferencesLinksConverter.py b/BibleOrgSys/Reference/Converters/BibleReferencesLinksConverter.py
index 3f01566..1051ba1 100755
--- a/BibleOrgSys/Reference/Converters/BibleReferencesLinksConverter.py
+++ b/BibleOrgSys/Reference/Converters/BibleReferencesLinksConverter.py
@@ -230,6 +230,15 @@ class BibleReferencesLinksConverter:
                 for subelement in element:
                     if subelement.tag not in self._compulsoryElements and subelement.tag not in self._optionalElements:
                         logging.warning( _("Additional {!r} element ({!r}) found in record with ID {!r} (record {})").format( subelement.tag, subelement.text, ID, j ) )
+                    BibleOrgSysGlobals.checkXMLNoAttributes( subelement, "{} in record {}".format( subelement.tag, j ) )
+                    if subelement.tag == 'BibleReferenceLink':
+                        for sub2element in subelement:
+                            if sub2element.tag not in ('targetReference','targetComponent','linkType'):
+                                logging.warning( _("Additional {!r} element ({!r}) found in {} in record with ID {!r} (record {})").format( sub2element.tag, sub2element.text, subelement.tag, ID, j ) )
+                            BibleOrgSysGlobals.checkXMLNoAttributes( sub2element, "{} in record {}".format( sub2element.tag, j ) )
+                            BibleOrgSysGlobals.checkXMLNoSubelements( sub2element, "{} in record {}".format( sub2element.tag, j ) )
+                    else:
+                        BibleOrgSysGlobals.checkXMLNoSubelements( subelement, "{} in record {}".format( subelement.tag, j ) )
 
                 # Check the elements that must contain unique information (in that particular element -- doesn't check across different elements)
                 for elementName in self._uniqueElements:
diff --git a/BibleOrgSys/Reference/Converters/BibleVersificationSystemsConverter.py b/BibleOrgSys/Reference/Converters/BibleVersificationSystemsConverter.py
index 557c553..8b678b4 100755
--- a/BibleOrgSys/Reference/Converters/BibleVersificationSystemsConverter.py
+++ b/BibleOrgSys/Reference/Converters/BibleVersificationSystemsConverter.py
@@ -199,6 +199,10 @@ class BibleVersificationSystemsConverter:
                 for subelement in element:
                     if subelement.tag not in self.__compulsoryElements and subelement.tag not in self.__optionalElements:
                         logging.warning( _("Additional {!r} element ({!r}) found in record with ID {!r} (record {})").format( subelement.tag, subelement.text, ID, k ) )
+                    for attributeName in subelement.keys():
+                        if subelement.tag != 'numVerses' or attributeName not in ('chapter','omittedVerses'):
+                            logging.warning( _("Additional {!r} attribute ({!r}) found on {} element in record {}").format( attributeName, subelement.get( attributeName ), subelement.tag, k ) )
+                    BibleOrgSysGlobals.checkXMLNoSubelements( subelement, "{} in record {}".format( subelement.tag, k ) )
 
                 # Check the elements that must contain unique information (in that particular element -- doesn't check across different elements)
                 for elementName in self.__uniqueElements:
diff --git a/BibleOrgSys/Reference/Converters/USFM2MarkersConverter.py b/BibleOrgSys/Reference/Converters/USFM2MarkersConverter.py
index e619c64..835f9f5 100755
--- a/BibleOrgSys/Reference/Converters/USFM2MarkersConverter.py
+++ b/BibleOrgSys/Reference/Converters/USFM2MarkersConverter.py
@@ -217,6 +217,8 @@ class USFM2MarkersConverter:
                 for subelement in element:
                     if subelement.tag not in self._compulsoryElements and subelement.tag not in self._optionalElements:
                         logging.warning( _("Additional {!r} element ({!r}) found in record with marker {!r} (record {})").format( subelement.tag, subelement.text, marker, j ) )
+                    BibleOrgSysGlobals.checkXMLNoAttributes( subelement, "{} in record {}".format( subelement.tag, j ) )
+                    BibleOrgSysGlobals.checkXMLNoSubelements( subelement, "{} in record {}".format( subelement.tag, j ) )
 
                 # Check the elements that must contain unique information (in that particular element -- doesn't check across different elements)
                 for elementName in self._uniqueElements:
diff --git a/BibleOrgSys/Reference/Converters/USFM3MarkersConverter.py b/BibleOrgSys/Reference/Converters/USFM3MarkersConverter.py
index 4ada51e..f218f92 100755
--- a/BibleOrgSys/Reference/Converters/USFM3MarkersConverter.py
+++ b/BibleOrgSys/Reference/Converters/USFM3MarkersConverter.py
@@ -217,6 +217,8 @@ class USFM3MarkersConverter:
                 for subelement in element:
                     if subelement.tag not in self._compulsoryElements and subelement.tag not in self._optionalElements:
                         logging.warning( _("Additional {!r} element ({!r}) found in record with marker {!r} (record {})").format( subelement.tag, subelement.text, marker, j ) )
+                    BibleOrgSysGlobals.checkXMLNoAttributes( subelement, "{} in record {}".format( subelement.tag, j ) )
+                    BibleOrgSysGlobals.checkXMLNoSubelements( subelement, "{} in record {}".format( subelement.tag, j ) )
 
                 # Check the elements that must contain unique information (in that particular element -- doesn't check across different elements)
                 for elementName in self._uniqueElements:
-- 
2.43.0


From ee508a12c20c0fa0f576598cd8aa2313603a8f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:30 +0000
Subject: [PATCH 76/91] fix: a Haggai, Zefania or VerseView book that cannot be
 identified is reported

---
 BibleOrgSys/Formats/HaggaiXMLBible.py    | 5 ++---
 BibleOrgSys/Formats/VerseViewXMLBible.py | 1 +
 BibleOrgSys/Formats/ZefaniaXMLBible.py   | 5 +++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/BibleOrgSys/Formats/HaggaiXMLBible.py b/BibleOrgSys/Formats/HaggaiXMLBible.py
index b9e4cf3..6c565c6 100755
--- a/BibleOrgSys/Formats/HaggaiXMLBible.py
+++ b/BibleOrgSys/Formats/HaggaiXMLBible.py
@@ -467,9 +467,7 @@ class HaggaiXMLBible( Bible ):
             else: logging.warning( "Unprocessed {!r} attribute ({}) in book element".format( attrib, value ) )
         if bookNumber:
             try: BBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromReferenceNumber( bookNumber )
-            except KeyError:
-                logging.warning( "Unable to deduce which book is number={}, name={}, shortName={} -- ignoring it" \
-                                                                        .format( bookNumber, bookName, bookShortName ) )
+            except KeyError: pass # reported below
         elif bookName:
             BBB = self.genericBOS.getBBBFromText( bookName )
 
@@ -494,6 +492,7 @@ class HaggaiXMLBible( Bible ):
                 else: logging.error( "Expected to find {!r} but got {!r}".format( HaggaiXMLBible.chapterTag, element.tag ) )
             vPrint( 'Info', DEBUGGING_THIS_MODULE, "  Saving {} into results…".format( BBB ) )
             self.stashBook( thisBook )
+        else: logging.critical( "Unable to deduce which book is number={}, name={}, shortName={} -- ignoring it".format( bookNumber, bookName, bookShortName ) )
     # end of HaggaiXMLBible.__validateAndExtractBook
 
 
diff --git a/BibleOrgSys/Formats/VerseViewXMLBible.py b/BibleOrgSys/Formats/VerseViewXMLBible.py
index cad4c30..1eb940b 100755
--- a/BibleOrgSys/Formats/VerseViewXMLBible.py
+++ b/BibleOrgSys/Formats/VerseViewXMLBible.py
@@ -378,6 +378,7 @@ class VerseViewXMLBible( Bible ):
                 else: logging.error( "vb26 Expected to find {!r} but got {!r}".format( VerseViewXMLBible.chapterTag, element.tag ) )
             vPrint( 'Info', DEBUGGING_THIS_MODULE, "  Saving {} into results…".format( BBB ) )
             self.stashBook( thisBook )
+        else: logging.critical( "Unable to deduce which book is number={}, name={} -- ignoring it".format( bookNumber, bookName ) )
     # end of VerseViewXMLBible.__validateAndExtractBook
 
 
diff --git a/BibleOrgSys/Formats/ZefaniaXMLBible.py b/BibleOrgSys/Formats/ZefaniaXMLBible.py
index 5487bf8..a3cec01 100755
--- a/BibleOrgSys/Formats/ZefaniaXMLBible.py
+++ b/BibleOrgSys/Formats/ZefaniaXMLBible.py
@@ -505,8 +505,6 @@ class ZefaniaXMLBible( Bible ):
                 if BBB1 and not BBB2: BBB = BBB1
                 elif not BBB1 and BBB2: BBB = BBB2
                 else: BBB = BBB2 # bookShortName is perhaps more reliable ???
-            # logging.critical( "Unable to deduce which book is number={}, name={}, shortName={} -- ignoring it" \
-            #                                                         .format( bookNumber, bookName, bookShortName ) )
         if BBB is None and bookName:
             BBB = self.genericBOS.getBBBFromText( bookName )
 
@@ -525,6 +523,9 @@ class ZefaniaXMLBible( Bible ):
                 else: logging.error( "Expected to find {!r} but got {!r}".format( CHAPTER_TAG, element.tag ) )
             vPrint( 'Info', DEBUGGING_THIS_MODULE, "  Saving {} into results…".format( BBB ) )
             self.stashBook( thisBook )
+        else:
+            logging.critical( "Unable to deduce which book is number={}, name={}, shortName={} -- ignoring it" \
+                                                                    .format( bookNumber, bookName, bookShortName ) )
     # end of ZefaniaXMLBible.__validateAndExtractBook
 
 
-- 
2.43.0


From f575d9135a6606f17406a1bc2b3bfca8484f7240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:06 +0000
Subject: [PATCH 77/91] fix: DBL reader looks at the attributes and children of
 the metadata and style elements

---
 BibleOrgSys/Formats/DBLBible.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Formats/DBLBible.py b/BibleOrgSys/Formats/DBLBible.py
index c980737..d276ae9 100755
--- a/BibleOrgSys/Formats/DBLBible.py
+++ b/BibleOrgSys/Formats/DBLBible.py
@@ -410,12 +410,15 @@ class DBLBible( Bible ):
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "    Processing {}…".format( sub2location ) )
                     BibleOrgSysGlobals.checkXMLNoTail( sub2element, sub2location )
                     if sub2element.tag in ('name','nameLocal','abbreviation','abbreviationLocal','description','descriptionLocal','range','tradition'):
+                        BibleOrgSysGlobals.checkXMLNoAttributes( sub2element, sub2location )
+                        BibleOrgSysGlobals.checkXMLNoSubelements( sub2element, sub2location )
                         if BibleOrgSysGlobals.debugFlag: assert sub2element.text
                         ourDict[bookListTag][sub2element.tag] = sub2element.text
                     elif sub2element.tag == 'division':
                         items = sub2element.items()
                         assert len(items)==1 and items[0][0]=='id'
                         divisionID = items[0][1]
+                        BibleOrgSysGlobals.checkXMLNoSubelements( sub2element, sub2location ) # Not loaded yet
                         #divisionTag = sub2element.tag + '-' + divisionID
                         ourDict[bookListTag]['divisions'][divisionID] = []
                     elif sub2element.tag == 'books':
@@ -526,7 +529,9 @@ class DBLBible( Bible ):
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "systemId", systemId )
                                 pass # Xxxxxxxxxxxxx not stored
                                 #thisTag = thisTag + '-' + items[0][1]
-                            else: BibleOrgSysGlobals.checkXMLNoAttributes( subelement, sub2location )
+                            else:
+                                BibleOrgSysGlobals.checkXMLNoAttributes( subelement, sub2location )
+                                BibleOrgSysGlobals.checkXMLNoSubelements( subelement, sub2location )
                             #assert subelement.text # Seems we can have a blank descriptionLocal
                             self.suppliedMetadata['DBL']['identification'][thisTag] = subelement.text
                         else:
@@ -807,7 +812,7 @@ class DBLBible( Bible ):
                                     assert len(items)==1 and items[0][0]=='type'
                                     contentType = items[0][1]
                                     assert contentType in ('xhtml',)
-                                    if not len(subelement) and subelement.text:
+                                    if not len(sub2element) and sub2element.text:
                                         copyright[subelement.tag+'-'+contentType] = sub2element.text
                                     else:
                                         copyright[subelement.tag+'-'+contentType] = BibleOrgSysGlobals.getFlattenedXML( sub2element, sub3location )
@@ -1337,11 +1342,11 @@ class DBLBible( Bible ):
                     # Collect the property attributes first
                     name = None
                     attribDict = {}
-                    for attrib,value in element.items():
+                    for attrib,value in subelement.items():
                         if attrib=='name': name = value
                         else: attribDict[attrib] = value
                     if name in ( 'font-family', 'font-size' ):
-                        ourDict[styleID]['properties'][name] = ( element.text, attribDict )
+                        ourDict[styleID]['properties'][name] = ( subelement.text, attribDict )
                 else:
                     logging.warning( _("Unprocessed style {} subelement '{}' in {}").format( subelement.tag, subelement.text, sublocation ) )
                     if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
-- 
2.43.0


From 8f2eef5913ebc7f2771252defb491551dd7cf283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:07 +0000
Subject: [PATCH 78/91] fix: LEB reader reports children of the front matter
 and attributes of notes

---
 BibleOrgSys/Formats/LEBXMLBible.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/LEBXMLBible.py b/BibleOrgSys/Formats/LEBXMLBible.py
index 5bb7ba0..1014bf7 100755
--- a/BibleOrgSys/Formats/LEBXMLBible.py
+++ b/BibleOrgSys/Formats/LEBXMLBible.py
@@ -487,6 +487,7 @@ class LEBXMLBible( Bible ):
         """
         """
         fnPrint( DEBUGGING_THIS_MODULE, f"processTitle( {element}, {len(loadErrors)} )" )
+        BibleOrgSysGlobals.checkXMLNoSubelements( element, 'processTitle', 'pt41', loadErrors ) # Not loaded yet
     # end of processTitle
 
 
@@ -494,6 +495,7 @@ class LEBXMLBible( Bible ):
         """
         """
         fnPrint( DEBUGGING_THIS_MODULE, f"processLicense( {element}, {len(loadErrors)} )" )
+        BibleOrgSysGlobals.checkXMLNoSubelements( element, 'processLicense', 'pl42', loadErrors ) # Not loaded yet
     # end of processLicense
 
 
@@ -501,6 +503,7 @@ class LEBXMLBible( Bible ):
         """
         """
         fnPrint( DEBUGGING_THIS_MODULE, f"processTrademark( {element}, {len(loadErrors)} )" )
+        BibleOrgSysGlobals.checkXMLNoSubelements( element, 'processTrademark', 'tm43', loadErrors ) # Not loaded yet
     # end of processTrademark
 
 
@@ -508,6 +511,7 @@ class LEBXMLBible( Bible ):
         """
         """
         fnPrint( DEBUGGING_THIS_MODULE, f"processPreface( {element}, {len(loadErrors)} )" )
+        BibleOrgSysGlobals.checkXMLNoSubelements( element, 'processPreface', 'pr44', loadErrors ) # Not loaded yet
     # end of processPreface
 
 
@@ -810,7 +814,7 @@ class LEBXMLBible( Bible ):
                         self.addLine( 'v', sub2element.text, thisBook )
                     elif sub2element.tag == 'supplied':
                         BibleOrgSysGlobals.checkXMLNoAttributes( sub2element, location, 'mns3', loadErrors )
-                        # BibleOrgSysGlobals.checkXMLNoSubelements( sub2element, location, 'gd63', loadErrors )
+                        BibleOrgSysGlobals.checkXMLNoSubelements( sub2element, location, 'gd63', loadErrors )
                         self.appendToLastLine( f"{' ' if haveOutstandingSpace else ''}\\add {sub2element.text}\\add*", thisBook )
                         haveOutstandingSpace = False
                         # if tail := clean( sub2element.tail, loadErrors, location ):
@@ -971,6 +975,7 @@ class LEBXMLBible( Bible ):
         DEBUGGING_THIS_FUNCTION = noteElement.tail and 'ten cubits' in noteElement.tail
 
         location = 'processNote'
+        BibleOrgSysGlobals.checkXMLNoAttributes( noteElement, location, 'nt45', loadErrors )
         haveOutstandingSpace = False
         self.appendToLastLine( f"{' ' if haveOutstandingSpace else ''}\\f + \\fr {self.state['C']}:{self.state['V']} \\ft {noteElement.text if noteElement.text else ''}", thisBook )
         for subelement in noteElement:
-- 
2.43.0


From 2b48ab6033c630f2af3acfb175d4f7d4559f144b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:07 +0000
Subject: [PATCH 79/91] fix: OpenSong, Tyndale notes and USFX readers report
 attributes and children they do not handle

---
 BibleOrgSys/Formats/OpenSongXMLBible.py  | 7 +++----
 BibleOrgSys/Formats/TyndaleNotesBible.py | 2 ++
 BibleOrgSys/Formats/USFXXMLBible.py      | 4 ++++
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Formats/OpenSongXMLBible.py b/BibleOrgSys/Formats/OpenSongXMLBible.py
index 08faa59..97b0a61 100755
--- a/BibleOrgSys/Formats/OpenSongXMLBible.py
+++ b/BibleOrgSys/Formats/OpenSongXMLBible.py
@@ -435,10 +435,9 @@ class OpenSongXMLBible( Bible ):
                     BibleOrgSysGlobals.checkXMLNoText( element, sublocation, 'g3g5' )
                     BibleOrgSysGlobals.checkXMLNoTail( element, sublocation, 'd3f6' )
                     self.__validateAndExtractBook( element )
-                elif element.tag == 'OT':
-                    pass
-                elif element.tag == 'NT':
-                    pass
+                elif element.tag in ('OT','NT'):
+                    BibleOrgSysGlobals.checkXMLNoAttributes( element, element.tag + " in " + location, 'ot51' )
+                    BibleOrgSysGlobals.checkXMLNoSubelements( element, element.tag + " in " + location, 'ot52' )
                 else: logging.error( "Expected to find {!r} but got {!r}".format( OpenSongXMLBible.bookTag, element.tag ) )
         else: logging.error( "Expected to load {!r} but got {!r}".format( OpenSongXMLBible.treeTag, self.XMLTree.tag ) )
         self.doPostLoadProcessing()
diff --git a/BibleOrgSys/Formats/TyndaleNotesBible.py b/BibleOrgSys/Formats/TyndaleNotesBible.py
index 4eb4ad5..7bc0f6b 100755
--- a/BibleOrgSys/Formats/TyndaleNotesBible.py
+++ b/BibleOrgSys/Formats/TyndaleNotesBible.py
@@ -273,12 +273,14 @@ class TyndaleNotesBible( Bible ):
                     BibleOrgSysGlobals.checkXMLNoTail( subelement, sublocation, '1wk8', loadErrors )
                     if stateCounter == 0 and self.abbreviation=='TTN':
                         assert subelement.tag == 'title'
+                        BibleOrgSysGlobals.checkXMLNoSubelements( subelement, sublocation, 'tt61', loadErrors )
                         title = subelement.text
                         assert title
                         stateCounter += 1
                     elif ( stateCounter == 0 and self.abbreviation in ('TSN','TOSN') ) \
                     or ( stateCounter == 1 and self.abbreviation=='TTN'): # these have the extra title field
                         assert subelement.tag == 'refs'
+                        BibleOrgSysGlobals.checkXMLNoSubelements( subelement, sublocation, 'tr62', loadErrors )
                         refs = subelement.text
                         assert refs
                         # assert refs == ref, f"{refs=} {ref=}" # Hmmh, not sure why some differ e.g., Gen.4.25-26 vs Gen.4.25-5.32
diff --git a/BibleOrgSys/Formats/USFXXMLBible.py b/BibleOrgSys/Formats/USFXXMLBible.py
index b6204c7..f979cc8 100755
--- a/BibleOrgSys/Formats/USFXXMLBible.py
+++ b/BibleOrgSys/Formats/USFXXMLBible.py
@@ -498,6 +498,8 @@ class USFXXMLBible( Bible ):
                     elif subelement.tag in ('add','it','bd','bdit','sc','nd',):
                         self.loadCharacterFormatting( subelement, sublocation, BBB, C, V )
                     elif subelement.tag == 'optionalLineBreak':
+                        BibleOrgSysGlobals.checkXMLNoAttributes( subelement, sublocation, 'lb71' )
+                        BibleOrgSysGlobals.checkXMLNoSubelements( subelement, sublocation, 'lb72' )
                         self.thisBook.appendToLastLine( '//' )
                     else:
                         logging.warning( _("jx9q Unprocessed {} element after {} {}:{} in {}").format( subelement.tag, BBB, C, V, sublocation ) )
@@ -676,6 +678,8 @@ class USFXXMLBible( Bible ):
                 self.thisBook.appendToLastLine( ' \\{} {}\\{}*{}{}'.format( element.tag, target, element.tag, text, (' '+tail) if tail else '' ) )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Saved", '\\{} {}\\{}*{}{}'.format( element.tag, target, element.tag, text, (' '+tail) if tail else '' ) )
             elif element.tag == 'optionalLineBreak':
+                BibleOrgSysGlobals.checkXMLNoAttributes( element, location, 'lb73' )
+                BibleOrgSysGlobals.checkXMLNoSubelements( element, location, 'lb74' )
                 self.thisBook.appendToLastLine( '//' )
             elif element.tag == 'milestone': # e.g., <milestone sfm="pb" attribute=""/> (pb = explicit page break)
                 BibleOrgSysGlobals.checkXMLNoText( element, location, 'jzx2' )
-- 
2.43.0


From 52ab39ab9e48d1c5b21587bbb3a715ff4caeca7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:07 +0000
Subject: [PATCH 80/91] fix: OSIS reader checks the attributes of a closer and
 the children of a catchWord

---
 BibleOrgSys/Formats/OSISXMLBible.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index e76183b..79a17b7 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -1094,6 +1094,7 @@ class OSISXMLBible( Bible ):
                                         vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "What do we do here with the {!r} note at {}".format( noteText, verseMilestone ) )
                                         halt
                             thisBook.appendToLastLine( '\\xo {}'.format( anchor ) )
+                            BibleOrgSysGlobals.checkXMLNoSubelements( subelement, sublocation+" at "+verseMilestone, 'xo81', loadErrors )
                             continue
                         elif noteType=='footnote':
                             thisBook.addLine( 'v~', anchor ) # There's no USFM for this
@@ -1232,6 +1233,7 @@ class OSISXMLBible( Bible ):
                     BibleOrgSysGlobals.checkXMLNoSubelements( subelement, sublocation+" at "+verseMilestone, 'fh38', loadErrors )
                 else:
                     vPrint( 'Never', DEBUGGING_THIS_MODULE, "{!r} note not handled FG35".format( noteType ) )
+                    BibleOrgSysGlobals.checkXMLNoSubelements( subelement, sublocation+" at "+verseMilestone, 'fh39', loadErrors )
                     if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag: halt
                 if catchWordTail:
                     thisBook.appendToLastLine( '\\fq* {}'.format( clean(catchWordTail) ) ) # Do we need the space
@@ -3178,7 +3180,7 @@ class OSISXMLBible( Bible ):
                         sublocation = "closer of " + location
                         clsText = clean(subelement.text, loadErrors, sublocation, verseMilestone )
                         clsTail = clean(subelement.tail, loadErrors, sublocation, verseMilestone )
-                        BibleOrgSysGlobals.checkXMLNoAttributes( element, sublocation+" at "+verseMilestone, 'js29', loadErrors )
+                        BibleOrgSysGlobals.checkXMLNoAttributes( subelement, sublocation+" at "+verseMilestone, 'js29', loadErrors )
                         thisBook.appendToLastLine( f'\\cls {clsText}' )
                         for sub2element in subelement:
                             if sub2element.tag == OSISXMLBible.OSISNameSpace+'p':
-- 
2.43.0


From dd632ab1be108705439b6e4b6635f25479d72605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:54 +0000
Subject: [PATCH 81/91] fix: LEB, USFX and lexicon readers look at the
 attributes of the right element

---
 BibleOrgSys/Formats/LEBXMLBible.py                            | 2 +-
 BibleOrgSys/Formats/USFXXMLBible.py                           | 2 ++
 .../OriginalLanguages/Converters/GreekLexiconConverter.py     | 4 ++--
 .../OriginalLanguages/Converters/HebrewLexiconConverter.py    | 2 ++
 4 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Formats/LEBXMLBible.py b/BibleOrgSys/Formats/LEBXMLBible.py
index 1014bf7..872a3de 100755
--- a/BibleOrgSys/Formats/LEBXMLBible.py
+++ b/BibleOrgSys/Formats/LEBXMLBible.py
@@ -1073,7 +1073,7 @@ class LEBXMLBible( Bible ):
                         BibleOrgSysGlobals.checkXMLNoTail( sub2element, location, 'x4vs', loadErrors )
                         # Process the attribute(s) first
                         ref = title = None
-                        for attrib,value in subelement.items():
+                        for attrib,value in sub2element.items():
                             if attrib=='ref':
                                 ref = value
                             elif attrib=='title':
diff --git a/BibleOrgSys/Formats/USFXXMLBible.py b/BibleOrgSys/Formats/USFXXMLBible.py
index f979cc8..42435be 100755
--- a/BibleOrgSys/Formats/USFXXMLBible.py
+++ b/BibleOrgSys/Formats/USFXXMLBible.py
@@ -915,6 +915,7 @@ class USFXXMLBible( Bible ):
                             self.loadCharacterFormatting( sub2element, sub2location, BBB, C, V )
                         else:
                             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'Ignored marker2', repr(marker2), BBB, C, V )
+                            logging.warning( _("fm92 Unprocessed {} element after {} {}:{} in {}").format( marker2, BBB, C, V, sub2location ) )
                             if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag: halt
                         if fTail2: self.thisBook.appendToLastLine( fTail2 )
                 elif marker == 'w':
@@ -923,6 +924,7 @@ class USFXXMLBible( Bible ):
                     self.loadCharacterFormatting( subelement, sublocation, BBB, C, V )
                 else:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'Ignored marker', repr(marker), BBB, C, V )
+                    BibleOrgSysGlobals.checkXMLNoSubelements( subelement, sublocation, 'fm91' )
                     if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
             if fTail:
                 self.thisBook.appendToLastLine( '\\{}*{}'.format( marker, fTail ) )
diff --git a/BibleOrgSys/OriginalLanguages/Converters/GreekLexiconConverter.py b/BibleOrgSys/OriginalLanguages/Converters/GreekLexiconConverter.py
index 6fd0ca4..17a7e63 100755
--- a/BibleOrgSys/OriginalLanguages/Converters/GreekLexiconConverter.py
+++ b/BibleOrgSys/OriginalLanguages/Converters/GreekLexiconConverter.py
@@ -139,8 +139,8 @@ class GreekStrongsFileConverter:
         if self.XMLTree.tag == GreekStrongsFileConverter.treeTag:
             for segment in self.XMLTree:
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, segment.tag )
-                if segment.tag == "prologue":
-                    pass
+                if segment.tag == "prologue": # We don't use the text of the prologue
+                    BibleOrgSysGlobals.checkXMLNoAttributes( segment, segment.tag, "pr63" )
                 elif segment.tag == "entries":
                     self.validateEntries( segment )
                 else: logging.error( "ks24 Unprocessed {!r} element ({}) in entry".format( segment.tag, segment.text ) )
diff --git a/BibleOrgSys/OriginalLanguages/Converters/HebrewLexiconConverter.py b/BibleOrgSys/OriginalLanguages/Converters/HebrewLexiconConverter.py
index 4cfba02..e71fdd3 100755
--- a/BibleOrgSys/OriginalLanguages/Converters/HebrewLexiconConverter.py
+++ b/BibleOrgSys/OriginalLanguages/Converters/HebrewLexiconConverter.py
@@ -771,6 +771,8 @@ class BrownDriverBriggsFileConverter:
                 BibleOrgSysGlobals.checkXMLNoText( entry, entry.tag, "dv20" )
                 BibleOrgSysGlobals.checkXMLNoTail( entry, entry.tag, "jsq2" )
                 BibleOrgSysGlobals.checkXMLNoSubelements( entry, entry.tag, "kdd0" )
+                for attrib,value in entry.items():
+                    if attrib != 'p': logging.warning( "kdd1 Unprocessed {!r} attribute ({}) in page element".format( attrib, value ) )
             else: self.validateEntry( entry, partID, sectionID, title, lang )
     # end of BrownDriverBriggsFileConverter.validateSection
 
-- 
2.43.0


From 1f6d1687d91824bd19c94b7f8f3078ec1eb26200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:20 +0000
Subject: [PATCH 82/91] fix: OSIS reader reports what is inside a verse or
 chapter that it only understands as a milestone

---
 BibleOrgSys/Formats/OSISXMLBible.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index 79a17b7..22a479a 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -1684,6 +1684,7 @@ class OSISXMLBible( Bible ):
             elif subelement.tag == OSISXMLBible.OSISNameSpace+'verse':
                 sublocation = "validateTitle: verse of " + locationDescription
                 verseMilestone = self.validateVerseElement( thisBook, subelement, verseMilestone, chapterMilestone, sublocation, loadErrors )
+                BibleOrgSysGlobals.checkXMLNoSubelements( subelement, sublocation, 'cv81', loadErrors ) # We only handle milestones here
             elif subelement.tag == OSISXMLBible.OSISNameSpace+'seg':
                 sublocation = "validateTitle: verse of " + locationDescription
                 self.validateAndLoadSEG( thisBook, subelement, sublocation, verseMilestone, loadErrors )
@@ -2496,6 +2497,7 @@ class OSISXMLBible( Bible ):
                         if sub2element.tag == OSISXMLBible.OSISNameSpace+'verse':
                             sub2location = "validateLG: verse of l of " + locationDescription
                             verseMilestone = self.validateVerseElement( thisBook, sub2element, verseMilestone, chapterMilestone, sub2location, loadErrors )
+                            BibleOrgSysGlobals.checkXMLNoSubelements( sub2element, sub2location, 'cv82', loadErrors ) # We only handle milestones here
                         elif sub2element.tag == OSISXMLBible.OSISNameSpace+'note':
                             sub2location = "validateLG: note of l of " + locationDescription
                             self.validateCrossReferenceOrFootnote( thisBook, sub2element, sub2location, verseMilestone, loadErrors )
@@ -2520,6 +2522,7 @@ class OSISXMLBible( Bible ):
                 elif subelement.tag == OSISXMLBible.OSISNameSpace+'verse':
                     sublocation = "validateLG verse of " + locationDescription
                     verseMilestone = self.validateVerseElement( thisBook, subelement, verseMilestone, chapterMilestone, sublocation, loadErrors )
+                    BibleOrgSysGlobals.checkXMLNoSubelements( subelement, sublocation, 'cv83', loadErrors ) # We only handle milestones here
                 else:
                     logging.error( "q2b6 Unprocessed {!r} sub-element ({}) in {} at {}".format( subelement.tag, subelement.text, location, verseMilestone ) )
                     loadErrors.append( "Unprocessed {!r} sub-element ({}) in {} at {} (q2b6)".format( subelement.tag, subelement.text, location, verseMilestone ) )
@@ -2565,6 +2568,7 @@ class OSISXMLBible( Bible ):
                         if sub2element.tag == OSISXMLBible.OSISNameSpace+'verse':
                             sub2location = "verse of " + sublocation
                             verseMilestone = self.validateVerseElement( thisBook, sub2element, verseMilestone, chapterMilestone, sub2location, loadErrors )
+                            BibleOrgSysGlobals.checkXMLNoSubelements( sub2element, sub2location, 'cv84', loadErrors ) # We only handle milestones here
                             #verseTail = sub3element.tail
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "verseTail", repr(verseTail) )
                             #BibleOrgSysGlobals.checkXMLNoText( sub3element, sub3location+" at "+verseMilestone, 'cvf4', loadErrors )
@@ -2720,12 +2724,14 @@ class OSISXMLBible( Bible ):
                 if subelement.tag == OSISXMLBible.OSISNameSpace+'chapter': # A chapter break within a paragraph (relatively rare)
                     sublocation = "validateParagraph: chapter of " + locationDescription
                     chapterMilestone = validateChapterElement( bookList, subelement, chapterMilestone, verseMilestone, sublocation )
+                    BibleOrgSysGlobals.checkXMLNoSubelements( subelement, sublocation, 'cv85', loadErrors ) # We only handle milestones here
                 elif subelement.tag == OSISXMLBible.OSISNameSpace+'verse':
                     sublocation = "validateParagraph: verse of " + locationDescription
                     if justFinishedLG: # Have a verse straight after a LG (without an intervening p)
                         thisBook.addLine( 'm', '' )
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Added m" )
                     verseMilestone = self.validateVerseElement( thisBook, subelement, verseMilestone, chapterMilestone, sublocation, loadErrors )
+                    BibleOrgSysGlobals.checkXMLNoSubelements( subelement, sublocation, 'cv86', loadErrors ) # We only handle milestones here
                     justFinishedLG = False
                 elif subelement.tag == OSISXMLBible.OSISNameSpace+'note':
                     sublocation = "validateParagraph: note of " + locationDescription
@@ -2989,10 +2995,12 @@ class OSISXMLBible( Bible ):
                     if subelement.tag == OSISXMLBible.OSISNameSpace+'chapter':
                         sublocation = "chapter of " + location
                         chapterMilestone = validateChapterElement( bookList, subelement, chapterMilestone, verseMilestone, sublocation )
+                        BibleOrgSysGlobals.checkXMLNoSubelements( subelement, sublocation, 'cv87', loadErrors ) # We only handle milestones here
 ###                 ### verse in div
                     elif subelement.tag == OSISXMLBible.OSISNameSpace+'verse':
                         sublocation = "verse of " + location
                         verseMilestone = self.validateVerseElement( thisBook, subelement, verseMilestone, chapterMilestone, sublocation, loadErrors )
+                        BibleOrgSysGlobals.checkXMLNoSubelements( subelement, sublocation, 'cv88', loadErrors ) # We only handle milestones here
 ###                 ### title in div
                     elif subelement.tag == OSISXMLBible.OSISNameSpace+'title':  # section heading
                         sublocation = "title of " + location
@@ -3158,9 +3166,11 @@ class OSISXMLBible( Bible ):
                             elif sub2element.tag == OSISXMLBible.OSISNameSpace+'chapter':
                                 sub2location = "chapter of " + sublocation
                                 chapterMilestone = validateChapterElement( bookList, sub2element, chapterMilestone, verseMilestone, sub2location )
+                                BibleOrgSysGlobals.checkXMLNoSubelements( sub2element, sub2location, 'cv89', loadErrors ) # We only handle milestones here
                             elif sub2element.tag == OSISXMLBible.OSISNameSpace+'verse':
                                 sub2location = "verse of " + sublocation
                                 verseMilestone = self.validateVerseElement( thisBook, sub2element, verseMilestone, chapterMilestone, sub2location, loadErrors )
+                                BibleOrgSysGlobals.checkXMLNoSubelements( sub2element, sub2location, 'cv90', loadErrors ) # We only handle milestones here
                             elif sub2element.tag == OSISXMLBible.OSISNameSpace+'hi':
                                 sub2location = "hi of " + sublocation
                                 self.validateHighlight( thisBook, sub2element, sub2location, verseMilestone, loadErrors )
@@ -3235,6 +3245,7 @@ class OSISXMLBible( Bible ):
                     if subelement.tag == OSISXMLBible.OSISNameSpace+'verse':
                         sublocation = "verse of " + location
                         verseMilestone = self.validateVerseElement( thisBook, subelement, verseMilestone, chapterMilestone, sublocation, loadErrors )
+                        BibleOrgSysGlobals.checkXMLNoSubelements( subelement, sublocation, 'cv91', loadErrors ) # We only handle milestones here
                     elif subelement.tag == OSISXMLBible.OSISNameSpace+'transChange':
                         sublocation = "transChange of " + location
                         self.validateTransChange( thisBook, subelement, sublocation, verseMilestone, loadErrors ) # Also handles the tail
@@ -3342,6 +3353,7 @@ class OSISXMLBible( Bible ):
                                     #if sentence: thisBook.appendToLastLine( sentence ); sentence = ""
                                     sub2location = "verse of " + sublocation
                                     verseMilestone = self.validateVerseElement( thisBook, sub2element, verseMilestone, chapterMilestone, sub2location, loadErrors )
+                                    BibleOrgSysGlobals.checkXMLNoSubelements( sub2element, sub2location, 'cv92', loadErrors ) # We only handle milestones here
                                 elif sub2element.tag == OSISXMLBible.OSISNameSpace+'note':
                                     #sentence += words
                                     #if sentence: thisBook.appendToLastLine( sentence ); sentence = ""
@@ -3514,14 +3526,18 @@ class OSISXMLBible( Bible ):
                                 thisBook.addLine( 'v', thisData )
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, USFMResults[-4:] )
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'CHOCOLATE', thisBook._rawLines[-4:] )
+                                BibleOrgSysGlobals.checkXMLNoSubelements( subelement, location, 'cv94', loadErrors ) # We only handle the text here
+                            else: BibleOrgSysGlobals.checkXMLNoSubelements( subelement, location, 'cv95', loadErrors )
                         else:
                             logging.error( "4s9j Unprocessed {!r} sub-element {} in {} at {}".format( subelement.tag, repr(subelement.text), location, verseMilestone ) )
                             loadErrors.append( "Unprocessed {!r} sub-element {} in {} at {} (4s9j)".format( subelement.tag, repr(subelement.text), location, verseMilestone ) )
                             if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag: halt
+                else: BibleOrgSysGlobals.checkXMLNoSubelements( element, location, 'cv96', loadErrors )
 ########### Verse
             elif element.tag == OSISXMLBible.OSISNameSpace+'verse': # Some OSIS Bibles have verse milestones directly in a bookgroup div
                 location = "verse of {} div".format( mainDivType )
                 verseMilestone = self.validateVerseElement( thisBook, element, verseMilestone, chapterMilestone, location, loadErrors )
+                BibleOrgSysGlobals.checkXMLNoSubelements( element, location, 'cv93', loadErrors ) # We only handle milestones here
 ########### Lg
             elif element.tag == OSISXMLBible.OSISNameSpace+'lg':
                 location = "lg of {} div".format( mainDivType )
-- 
2.43.0


From d09e20133ab816bdec0b378cae94c6df2ec85c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:51 +0000
Subject: [PATCH 83/91] fix: write the caller of cross-references in older USX

---
 BibleOrgSys/Formats/USXXMLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/USXXMLBible.py b/BibleOrgSys/Formats/USXXMLBible.py
index f6ff982..d2306d4 100755
--- a/BibleOrgSys/Formats/USXXMLBible.py
+++ b/BibleOrgSys/Formats/USXXMLBible.py
@@ -612,7 +612,7 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "toUSXXML:_processXRef", j, "'"+token+"'", "from", '"'+USXxref+'"', xoOpen, xtOpen )
                     lcToken = token.lower()
                     if j==0: # The first token (but the x has already been removed)
-                        USXxrefXML += f'caller="{token.rstrip()}" style="x">' if version>=2 else 'caller="{}">'
+                        USXxrefXML += f'caller="{token.rstrip()}" style="x">' if version>=2 else f'caller="{token.rstrip()}">'
                     elif lcToken.startswith('xo '): # xref reference follows
                         if xoOpen: # We have multiple xo fields one after the other (probably an encoding error)
                             if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag: assert not xtOpen
-- 
2.43.0


From 3b9eedb3e5e2f41327175c1c30b3d9a74ac984f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:20 +0000
Subject: [PATCH 84/91] fix: load Sword modules with KJVA and Vulg
 versification

---
 BibleOrgSys/Formats/SwordModules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/SwordModules.py b/BibleOrgSys/Formats/SwordModules.py
index 51b683e..904da22 100755
--- a/BibleOrgSys/Formats/SwordModules.py
+++ b/BibleOrgSys/Formats/SwordModules.py
@@ -852,7 +852,7 @@ class SwordModule():
         assert len(self.NTList) == 27
         if 'Versification' in self.SwordModuleConfiguration.confDict:
             if self.SwordModuleConfiguration.confDict['Versification'] == 'KJVA':
-                self.OTList = self.OTList + ('GES','LES','TOB','JDT','ESA','WIS','SIR','BAR','PAZ','SUS','BEL','MAN','MA1','MA2',)
+                self.OTList = self.OTList + ['GES','LES','TOB','JDT','ESA','WIS','SIR','BAR','PAZ','SUS','BEL','MAN','MA1','MA2',]
                 assert len(self.OTList) == 53
             elif self.SwordModuleConfiguration.confDict['Versification'] == 'Vulg':
                 self.OTList = ( 'GEN', 'EXO', 'LEV', 'NUM', 'DEU', 'JOS', 'JDG', 'RUT', 'SA1', 'SA2', 'KI1', 'KI2', 'CH1', 'CH2', \
@@ -860,7 +860,7 @@ class SwordModule():
                             'ISA', 'JER', 'LAM', 'BAR', 'EZE', 'DAN', 'HOS', 'JOL', 'AMO', 'OBA', \
                             'JNA', 'MIC', 'NAH', 'HAB', 'ZEP', 'HAG', 'ZEC', 'MAL', 'MA1', 'MA2' )
                 assert len(self.OTList) == 46
-                self.NTList = self.NTList + ('MAN','GES','LES','PS2','LAO',)
+                self.NTList = self.NTList + ['MAN','GES','LES','PS2','LAO',]
                 assert len(self.NTList) == 32
             elif self.SwordModuleConfiguration.confDict['Versification'] == 'Rahlfs':
                 self.OTList = ( 'GEN', 'EXO', 'LEV', 'NUM', 'DEU', 'JSA', 'JGB', 'RUT', 'SA1', 'SA2', 'KI1', 'KI2', \
-- 
2.43.0


From a62d2b00c10e1fa441100c3ed119711b89614911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:20 +0000
Subject: [PATCH 85/91] fix: mark unknown Haggai styles with what the style
 says

---
 BibleOrgSys/Formats/HaggaiXMLBible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/HaggaiXMLBible.py b/BibleOrgSys/Formats/HaggaiXMLBible.py
index 6c565c6..cf8a6c0 100755
--- a/BibleOrgSys/Formats/HaggaiXMLBible.py
+++ b/BibleOrgSys/Formats/HaggaiXMLBible.py
@@ -655,7 +655,7 @@ class HaggaiXMLBible( Bible ):
                         sText, sTail = sub2element.text.strip(), sub2element.tail
                         if BibleOrgSysGlobals.debugFlag: assert sText
                         if SFM: vText += SFM+' ' + sText + SFM+'*'
-                        else: vText += '\\sc ' + '['+css+']' + sText + '\\sc* ' # Use sc for unknown styles
+                        else: vText += '\\sc ' + '['+str(fs or css or idStyle)+']' + sText + '\\sc* ' # Use sc for unknown styles
                         if sTail: vText += sTail.strip()
                     else: logging.error( "Expected to find {} but got {!r} in {}".format( HaggaiXMLBible.styleTag, sub2element.tag, sublocation ) )
 
@@ -683,7 +683,7 @@ class HaggaiXMLBible( Bible ):
                 if BibleOrgSysGlobals.debugFlag: assert sText
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, chapterNumber, sublocation )
                 if SFM: vText += SFM+' ' + sText + SFM+'*'
-                else: vText += '\\sc ' + '['+css+']' + sText + '\\sc* ' # Use sc for unknown styles
+                else: vText += '\\sc ' + '['+str(fs or css or idStyle)+']' + sText + '\\sc* ' # Use sc for unknown styles
                 if sTail: vText += sTail.strip()
 
             elif subelement.tag == HaggaiXMLBible.breakTag:
-- 
2.43.0


From c46cc58aabe5095033f9d778707b54e5f3e56f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:22 +0000
Subject: [PATCH 86/91] fix: removeUSFMCharacterField no longer loops forever
 when a field contains an embedded marker

---
 BibleOrgSys/Reference/USFM2Markers.py | 4 +++-
 BibleOrgSys/Reference/USFM3Markers.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Reference/USFM2Markers.py b/BibleOrgSys/Reference/USFM2Markers.py
index 09eefc0..1728aaf 100755
--- a/BibleOrgSys/Reference/USFM2Markers.py
+++ b/BibleOrgSys/Reference/USFM2Markers.py
@@ -121,13 +121,15 @@ def removeUSFMCharacterField( marker, originalText, closedFlag ):
                 logging.error( "removeUSFMCharacterField: no end marker for {!r} in {!r}".format( marker, originalText ) )
                 break
             text = text[:ix] + text[ixEnd+mLen+2:]
-        elif closedFlag == False:
+        else: # closedFlag == False
             ixEnd = text.find( '\\', ix+mLen+2 )
             if ixEnd == -1: # remove until end of line
                 text = text[:ix]
             elif ixEnd<tLen-1 and text[ixEnd+1]=='+': # We've hit an embedded marker
                 logging.critical( "removeUSFMCharacterField: doesn't handle embedded markers yet with {!r} in {!r}".format( marker, originalText ) )
                 if BibleOrgSysGlobals.debugFlag: halt
+                ix = text.find( '\\'+marker+' ', ixEnd ) # Leave this one as it is, and carry on after it
+                continue
             else:
                 text = text[:ix] + text[ixEnd:]
         ix = text.find( '\\'+marker+' ' )
diff --git a/BibleOrgSys/Reference/USFM3Markers.py b/BibleOrgSys/Reference/USFM3Markers.py
index 2f0a2c5..6c6b3a4 100755
--- a/BibleOrgSys/Reference/USFM3Markers.py
+++ b/BibleOrgSys/Reference/USFM3Markers.py
@@ -118,7 +118,7 @@ def removeUSFMCharacterField( marker, originalText, closedFlag ):
                 logging.error( "removeUSFMCharacterField: no end marker for {!r} in {!r}".format( marker, originalText ) )
                 break
             text = text[:ix] + text[ixEnd+mLen+2:]
-        elif closedFlag == False:
+        else: # closedFlag == False
             ixEnd = text.find( '\\', ix+mLen+2 )
             if ixEnd == -1: # remove until end of line
                 text = text[:ix]
@@ -126,6 +126,8 @@ def removeUSFMCharacterField( marker, originalText, closedFlag ):
                 logger = logging.critical if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag else logging.error
                 logger( "removeUSFMCharacterField: doesn't handle embedded markers yet with {!r} in {!r}".format( marker, originalText ) )
                 if DEBUGGING_THIS_MODULE and BibleOrgSysGlobals.debugFlag: halt
+                ix = text.find( f'\\{marker} ', ixEnd ) # Leave this one as it is, and carry on after it
+                continue
             else:
                 text = text[:ix] + text[ixEnd:]
         ix = text.find( f'\\{marker} ' )
-- 
2.43.0


From 9789431ee6810246a0aa2e491a6fc43f9a6641d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:42 +0000
Subject: [PATCH 87/91] fix: every text of usesText is checked: the list is no
 longer changed while it is gone through

---
 .../Reference/Converters/BibleOrganisationalSystemsConverter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/Converters/BibleOrganisationalSystemsConverter.py b/BibleOrgSys/Reference/Converters/BibleOrganisationalSystemsConverter.py
index e2b828c..01b28cb 100755
--- a/BibleOrgSys/Reference/Converters/BibleOrganisationalSystemsConverter.py
+++ b/BibleOrgSys/Reference/Converters/BibleOrganisationalSystemsConverter.py
@@ -327,7 +327,7 @@ class BibleOrganisationalSystemsConverter:
                     if 'derivedFrom' in data: logging.error( _("{} shouldn't use 'derivedFrom' {!r}").format( extendedReferenceAbbreviation, data['derivedFrom'] ) )
                     if 'usesText' not in data: logging.error( _("{} doesn't specify 'usesText'").format( extendedReferenceAbbreviation ) )
                     else: # have a 'usesText' list
-                        for textAbbrev in data['usesText']:
+                        for textAbbrev in list( data['usesText'] ):
                             if textAbbrev not in indexDict: logging.error( _("{} specifies unknown {!r} text in 'usesText' field").format(extendedReferenceAbbreviation,textAbbrev) )
                             elif len(indexDict[textAbbrev]) > 1: # it could be ambiguous
                                 found = 0
-- 
2.43.0


From d7451b6828a9388f0c6069d29e6d845bc3bf4fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:09 +0000
Subject: [PATCH 88/91] fix: book code lists go to the default output folder,
 not to the current folder

---
 BibleOrgSys/Reference/BibleBooksCodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/BibleBooksCodes.py b/BibleOrgSys/Reference/BibleBooksCodes.py
index fc14f86..f75e283 100755
--- a/BibleOrgSys/Reference/BibleBooksCodes.py
+++ b/BibleOrgSys/Reference/BibleBooksCodes.py
@@ -817,7 +817,7 @@ class BibleBooksCodes:
         Writes a list of Bible Books Codes to a text file in the BOSOutputFiles folder
             and also to an HTML-formatted table.
         """
-        if not outputFolder: outputFolder = "BOSOutputFiles/"
+        if not outputFolder: outputFolder = BibleOrgSysGlobals.DEFAULT_WRITEABLE_OUTPUT_FOLDERPATH
         if not os.access( outputFolder, os.F_OK ): os.makedirs( outputFolder ) # Make the empty folder if there wasn't already one there
         with open( os.path.join( outputFolder, "BOS_Books_Codes.txt" ), 'wt', encoding='utf-8' ) as txtFile, \
              open( os.path.join( outputFolder, "BOS_Books_Codes.html" ), 'wt', encoding='utf-8' ) as htmlFile:
-- 
2.43.0


From 8047b6424b3e9d75f9be8f56417dcc563c20dff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:09 +0000
Subject: [PATCH 89/91] fix: EasyWorship zip file uses the safe filename too

---
 BibleOrgSys/Formats/EasyWorshipBible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/EasyWorshipBible.py b/BibleOrgSys/Formats/EasyWorshipBible.py
index 84c06c7..f8459cf 100755
--- a/BibleOrgSys/Formats/EasyWorshipBible.py
+++ b/BibleOrgSys/Formats/EasyWorshipBible.py
@@ -275,8 +275,8 @@ def createEasyWorshipBible( BibleObject, outputFolder=None ):
     assert encodedNameBytes[0]==0x78 and encodedNameBytes[1]==0xda # Zlib compression header
     assert len(encodedNameBytes) <= 26
 
-    filename = '{}{}'.format( BibleObject.abbreviation, FILENAME_ENDING ).lower()
-    filepath = os.path.join( outputFolder, BibleOrgSysGlobals.makeSafeFilename( filename ) )
+    filename = BibleOrgSysGlobals.makeSafeFilename( '{}{}'.format( BibleObject.abbreviation, FILENAME_ENDING ).lower() )
+    filepath = os.path.join( outputFolder, filename )
     vPrint( 'Info', DEBUGGING_THIS_MODULE, '  createEasyWorshipBible: ' + _("Writing {!r}…").format( filepath ) )
     bookAddress = startingBookAddress = 14872 + len(name) + 18 + 4 # Name is something like ezFreeXXX
     vBridgeStartInt = vBridgeEndInt = None # For printing missing (bridged) verse numbers
-- 
2.43.0


From 90221c0a900082f0c14eacb2456d8d070df7d11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:09 +0000
Subject: [PATCH 90/91] fix: pickle makes every filename safe that it takes
 from a name

---
 BibleOrgSys/Internals/InternalBible.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index b1f4c43..4b225f2 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -990,6 +990,7 @@ class InternalBible:
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, (self.abbreviation), repr(self.name) )
         if filename is None:
             filename = self.getAName( abbrevFirst=True )
+            if filename is not None: filename = BibleOrgSysGlobals.makeSafeFilename( filename )
         if filename is None:
             filename = self.objectTypeString
         if BibleOrgSysGlobals.debugFlag:
-- 
2.43.0


From 89bfc68c8ac8690cfcecd5b54f983cba421b52d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:09 +0000
Subject: [PATCH 91/91] fix: unfoldingWord analysis files have safe names

---
 BibleOrgSys/Internals/InternalBible.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index 4b225f2..197f887 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -2857,7 +2857,7 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
         # Save the original list and all the derived dictionaries for any futher analysis/processing
         vPrint( 'Normal', debuggingThisFunction, f"  InternalBible.analyseAndExportUWoriginal writing {self.abbreviation} analysis JSON files…" )
         import json
-        originalsAnalysisOutputFolderpath = BibleOrgSysGlobals.DEFAULT_WRITEABLE_OUTPUT_FOLDERPATH.joinpath( f'unfoldingWordOriginalTexts/{self.abbreviation}_Analysis/' )
+        originalsAnalysisOutputFolderpath = BibleOrgSysGlobals.DEFAULT_WRITEABLE_OUTPUT_FOLDERPATH.joinpath( f'unfoldingWordOriginalTexts/{BibleOrgSysGlobals.makeSafeFilename( self.abbreviation )}_Analysis/' )
         try: os.makedirs( originalsAnalysisOutputFolderpath )
         except FileExistsError: pass
         for dataObject, objectName in (
@@ -2872,16 +2872,16 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
                 ):
             assert isinstance( dataObject, (dict,list) )
             if dataObject: # Don't write blank files
-                with open( originalsAnalysisOutputFolderpath.joinpath( f'{self.abbreviation}_{objectName}.json' ), 'wt', encoding='utf-8' ) as exportFile:
+                with open( originalsAnalysisOutputFolderpath.joinpath( f'{BibleOrgSysGlobals.makeSafeFilename( self.abbreviation )}_{objectName}.json' ), 'wt', encoding='utf-8' ) as exportFile:
                     json.dump( dataObject, exportFile, ensure_ascii=False, indent=JSON_INDENT )
 
         # Save the original text without \w fields for easier reading
         vPrint( 'Normal', debuggingThisFunction, f"  InternalBible.analyseAndExportUWoriginal writing {self.abbreviation} text-only USFM files…" )
-        self._getBibleWithoutWFields().toUSFM3( BibleOrgSysGlobals.DEFAULT_WRITEABLE_OUTPUT_FOLDERPATH.joinpath( f'unfoldingWordOriginalTexts/{self.abbreviation}_TextOnly_USFM/' ) )
+        self._getBibleWithoutWFields().toUSFM3( BibleOrgSysGlobals.DEFAULT_WRITEABLE_OUTPUT_FOLDERPATH.joinpath( f'unfoldingWordOriginalTexts/{BibleOrgSysGlobals.makeSafeFilename( self.abbreviation )}_TextOnly_USFM/' ) )
         # Check that we didn't mess up the original object -- it should still have the \\w fields with attributes
         # Actually, we'll leave this in, coz these files have each verse on a separate line,
         #   not each WORD on a separate line like the unfoldingWord originals
-        self.toUSFM3( BibleOrgSysGlobals.DEFAULT_WRITEABLE_OUTPUT_FOLDERPATH.joinpath( f'unfoldingWordOriginalTexts/{self.abbreviation}_Normalised_USFM/' ) )
+        self.toUSFM3( BibleOrgSysGlobals.DEFAULT_WRITEABLE_OUTPUT_FOLDERPATH.joinpath( f'unfoldingWordOriginalTexts/{BibleOrgSysGlobals.makeSafeFilename( self.abbreviation )}_Normalised_USFM/' ) )
 
         vPrint( 'Quiet', debuggingThisFunction, f"  InternalBible.analyseAndExportUWoriginal: Done for {self.abbreviation}" )
     # end of InternalBible.analyseAndExportUWoriginal
@@ -2930,7 +2930,7 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
         alignmentDCDict:dict[tuple[str,str,str],list[tuple[list,str,list]]] = defaultdict( list )
         alignmentNTDict:dict[tuple[str,str,str],list[tuple[list,str,list]]] = defaultdict( list )
 
-        alignmentsOutputFolderpath = BibleOrgSysGlobals.DEFAULT_WRITEABLE_OUTPUT_FOLDERPATH.joinpath( f'unfoldingWordAlignedTexts/{self.abbreviation}_Alignments_ByBook/' )
+        alignmentsOutputFolderpath = BibleOrgSysGlobals.DEFAULT_WRITEABLE_OUTPUT_FOLDERPATH.joinpath( f'unfoldingWordAlignedTexts/{BibleOrgSysGlobals.makeSafeFilename( self.abbreviation )}_Alignments_ByBook/' )
         try: os.makedirs( alignmentsOutputFolderpath )
         except FileExistsError: pass
 
@@ -3251,7 +3251,7 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
         self.uWalignments['oneToOneTransToOriginalAlignmentsDict'] = oneToOneTransToOriginalAlignmentsDict
 
         # Save the original list and all the derived dictionaries for any futher analysis/processing
-        alignedAnalysisOutputFolderpath = BibleOrgSysGlobals.DEFAULT_WRITEABLE_OUTPUT_FOLDERPATH.joinpath( f'unfoldingWordAlignedTexts/{self.abbreviation}_Analysis/' )
+        alignedAnalysisOutputFolderpath = BibleOrgSysGlobals.DEFAULT_WRITEABLE_OUTPUT_FOLDERPATH.joinpath( f'unfoldingWordAlignedTexts/{BibleOrgSysGlobals.makeSafeFilename( self.abbreviation )}_Analysis/' )
         try: os.makedirs( alignedAnalysisOutputFolderpath )
         except FileExistsError: pass
         vPrint( 'Normal', debuggingThisFunction, f"  InternalBible.analyseAndExportUWalignments writing {self.abbreviation} alignment JSON files…" )
@@ -3307,11 +3307,11 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
                 ):
             assert isinstance( dataObject, (dict,list) )
             if dataObject: # Don't write blank files
-                with open( alignedAnalysisOutputFolderpath.joinpath( f'{self.abbreviation}_{objectName}.json' ), 'wt', encoding='utf-8' ) as exportFile:
+                with open( alignedAnalysisOutputFolderpath.joinpath( f'{BibleOrgSysGlobals.makeSafeFilename( self.abbreviation )}_{objectName}.json' ), 'wt', encoding='utf-8' ) as exportFile:
                     json.dump( dataObject, exportFile, ensure_ascii=False, indent=JSON_INDENT )
 
         # Save some text files for manually looking through
-        with open( alignedAnalysisOutputFolderpath.joinpath( f'{self.abbreviation}_TransOccurrences.byForm.txt' ), 'wt', encoding='utf-8' ) as exportFile:
+        with open( alignedAnalysisOutputFolderpath.joinpath( f'{BibleOrgSysGlobals.makeSafeFilename( self.abbreviation )}_TransOccurrences.byForm.txt' ), 'wt', encoding='utf-8' ) as exportFile:
             for originalWord in sorted(originalFormToTransOccurrencesDict, key=lambda theWord: theWord.lower()):
                 assert isinstance( originalWord, str )
                 assert originalWord
@@ -3338,7 +3338,7 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
         #dPrint( 'Quiet', debuggingThisFunction, "keys", originalLemmaToTransOccurrencesDict.keys() )
         #dPrint( 'Quiet', debuggingThisFunction, "\n", sorted(originalLemmaToTransOccurrencesDict, key=lambda theLemma: theLemma.lower()) )
         #dPrint( 'Quiet', debuggingThisFunction, "blank", originalLemmaToTransOccurrencesDict[''] )
-        with open( alignedAnalysisOutputFolderpath.joinpath( f'{self.abbreviation}_TransOccurrences.byLemma.txt' ), 'wt', encoding='utf-8' ) as exportFile:
+        with open( alignedAnalysisOutputFolderpath.joinpath( f'{BibleOrgSysGlobals.makeSafeFilename( self.abbreviation )}_TransOccurrences.byLemma.txt' ), 'wt', encoding='utf-8' ) as exportFile:
             for originalLemma in sorted(originalLemmaToTransOccurrencesDict, key=lambda theLemma: theLemma.lower()):
                 assert isinstance( originalLemma, str )
                 #assert originalLemma # NO, THESE CAN BE BLANK
@@ -3395,11 +3395,11 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
         # Save the original text without \w fields for easier reading
         #   (Both outputs below have the alignment information already removed)
         vPrint( 'Normal', debuggingThisFunction, f"  InternalBible.analyseAndExportUWalignments writing {self.abbreviation} text-only USFM files…" )
-        self._getBibleWithoutWFields().toUSFM3( BibleOrgSysGlobals.DEFAULT_WRITEABLE_OUTPUT_FOLDERPATH.joinpath( f'unfoldingWordAlignedTexts/{self.abbreviation}_TextOnly_USFM/' ) )
+        self._getBibleWithoutWFields().toUSFM3( BibleOrgSysGlobals.DEFAULT_WRITEABLE_OUTPUT_FOLDERPATH.joinpath( f'unfoldingWordAlignedTexts/{BibleOrgSysGlobals.makeSafeFilename( self.abbreviation )}_TextOnly_USFM/' ) )
         # Check that we didn't mess up the original object -- it should still have the \\w fields with attributes
         # Actually, we'll leave this in, coz these files have each verse on a separate line,
         #   not each WORD on a separate line like the unfoldingWord originals
-        self.toUSFM3( BibleOrgSysGlobals.DEFAULT_WRITEABLE_OUTPUT_FOLDERPATH.joinpath( f'unfoldingWordAlignedTexts/{self.abbreviation}_Normalised_USFM/' ) )
+        self.toUSFM3( BibleOrgSysGlobals.DEFAULT_WRITEABLE_OUTPUT_FOLDERPATH.joinpath( f'unfoldingWordAlignedTexts/{BibleOrgSysGlobals.makeSafeFilename( self.abbreviation )}_Normalised_USFM/' ) )
 
         vPrint( 'Normal', debuggingThisFunction,
 f'''  InternalBible.analyseAndExportUWalignments: Have {len(aggregatedAlignmentsList):,} alignment entries for {self.abbreviation}
-- 
2.43.0

