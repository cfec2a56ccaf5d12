package checks

// linkGroups lists the properties of different built-in models that mean the
// same: the first is the standard property, the others are tied to it by the
// models (their documentation, tags and conversion rules). Written down once
// from the models; not derived from the code at check time.
var linkGroups = [][]string{
	{"dc.Title", "id3.TitleDescription", "pdf.Title", "riffinfo.Title"},
	{"dc.Creator", "pdf.Author", "tiff.Artist", "tiff.X_Artist", "exif.ArtistXMP", "exif.Artist"},
	{"dc.Description", "pdf.Subject", "tiff.ImageDescription", "tiff.X_ImageDescription", "exif.ImageDescriptionXMP", "exif.ImageDescription", "riffinfo.Description"},
	{"dc.Rights", "id3.Copyright", "pdf.Copyright", "tiff.Copyright", "tiff.X_Copyright", "exif.CopyrightXMP", "exif.Copyright", "riffinfo.Copyright"},
	{"dc.Subject", "riffinfo.Keywords"},
	{"dc.Type", "riffinfo.SourceType"},
	{"dc.Source", "riffinfo.SourceMedium"},
	{"xmp.CreatorTool", "pdf.Creator", "tiff.Software", "exif.SoftwareXMP", "exif.Software", "riffinfo.Software"},
	{"xmp.CreateDate", "pdf.CreationDate", "id3.RecordingTime", "id3.Date_v23", "id3.Time_v23", "riffinfo.CreateDate"},
	{"xmp.ModifyDate", "pdf.ModifyDate", "tiff.DateTime", "tiff.X_DateTime", "exif.DateTimeXMP", "exif.DateTime"},
	{"photoshop.DateCreated", "exif.DateTimeOriginalXMP"},
	{"xmpDM.Artist", "id3.LeadPerformer", "riffinfo.Artist"},
	{"xmpDM.LogComment", "id3.Comments", "riffinfo.Comments", "iXML.Note"},
	{"xmpDM.Album", "id3.AlbumTitle"},
	{"xmpDM.Genre", "id3.ContentType", "riffinfo.Genre"},
	{"xmpDM.Engineer", "id3.ModifiedBy", "riffinfo.Engineeer"},
	{"xmpDM.Composer", "id3.Composer"},
	{"xmpDM.DiscNumber", "id3.PartOfASet"},
	{"xmpDM.TrackNumber", "id3.TrackNumber", "iXML.Take"},
	{"xmpDM.Lyrics", "id3.UnsynchronizedLyrics"},
	{"xmpDM.PartOfCompilation", "id3.IsCompilation"},
	{"xmpDM.TapeName", "iXML.SoundRoll"},
	{"xmpDM.Scene", "iXML.SceneName"},
	{"xmpDM.ProjectName", "iXML.Project"},
	{"xmpDM.Good", "iXML.IsCircled"},
	{"xmpDM.StartTimecode", "iXML.Speed"},
	{"xmpDM.AudioSampleRate", "iXML.Speed"},
	{"xmpRights.WebStatement", "id3.CopyrightInformation"},
	// a property read into its home model also fills the model that declares
	// it under a foreign name space
	{"exif.ExPhotographicSensitivity", "exif.ISOSpeedRatings"},
	{"exif.DateTimeDigitized", "exif.DateTimeDigitizedXMP"},
	{"exif.GPSLatitudeCoord", "exif.GPSLatitude", "exif.GPSLatitudeRef"},
	{"riffinfo.DateTimeOriginal", "riffinfo.DateTimeOriginal2"},
	{"riffinfo.EncodedBy", "riffinfo.EncodedBy2"},
	{"riffinfo.Starring", "riffinfo.Starring2"},
}

// tiffFields are declared by both the TIFF and the EXIF model.
var tiffFields = []string{"BitsPerSample", "Compression", "ImageLength", "ImageWidth", "Make", "Model", "Orientation",
	"PhotometricInterpretation", "PlanarConfiguration", "PrimaryChromaticities", "ReferenceBlackWhite", "ResolutionUnit",
	"SamplesPerPixel", "TransferFunction", "WhitePoint", "XResolution", "YCbCrCoefficients", "YCbCrPositioning",
	"YCbCrSubSampling", "YResolution"}

var linkOf = func() map[string][]int {
	for _, f := range tiffFields {
		g := []string{"tiff." + f, "exif." + f}
		if f == "Model" || f == "Make" {
			g = append(g, "drone-dji."+f)
		}
		linkGroups = append(linkGroups, g)
	}
	m := map[string][]int{}
	for i, g := range linkGroups {
		for _, f := range g {
			m[f] = append(m[f], i)
		}
	}
	return m
}()

// linked says whether two properties are tied to each other.
func linked(a, b string) bool {
	for _, i := range linkOf[a] {
		for _, j := range linkOf[b] {
			if i == j {
				return true
			}
		}
	}
	return false
}
