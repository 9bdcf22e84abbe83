// C29: the player's frame recorders.  Every frame pushed is looked up afterwards in the files.
#include "mon.h"
#include "faults.h"
#include "nbody_frame_compressor_image.h"
#include "nbody_frame_compressor_opencv.h"
#include <opencv2/opencv.hpp>
#include <QDir>
#include <QFile>
#include <QImage>
#include <QMutex>
#include <QThreadPool>
#include <memory>
using namespace mon;

static QMutex g_lock;
static std::vector<std::string> g_msgs;
static void handler(QtMsgType, const QMessageLogContext&, const QString& s) { QMutexLocker l(&g_lock); g_msgs.push_back(s.toStdString()); }

//! Smooth picture (survives lossy coding) that differs from frame to frame; noise: every pixel random
static QImage picture(rng& r, int w, int h, bool noise, QImage::Format f)
{
	QImage im(w, h, QImage::Format_ARGB32);
	double a[9];
	for(double& q : a) { q = r.uni(0, 255); }
	for(int y = 0; y < h; ++y)
	{
		QRgb* l = reinterpret_cast<QRgb*>(im.scanLine(y));
		for(int x = 0; x < w; ++x)
		{
			double u = double(x) / w, v = double(y) / h;
			if(noise) { l[x] = qRgba(r.below(256), r.below(256), r.below(256), 255); }
			else { l[x] = qRgb(int(a[0] + (a[1] - a[0]) * u), int(a[2] + (a[3] - a[2]) * v), int(a[4] + (a[5] - a[4]) * u * v)); }
		}
	}
	return im.convertToFormat(f);
}
static const QImage::Format formats[] = {QImage::Format_ARGB32, QImage::Format_RGB32, QImage::Format_ARGB32_Premultiplied, QImage::Format_RGB888};

static bool same(const QImage& a, const QImage& b)
{
	if(a.size() != b.size()) { return false; }
	QImage x = a.convertToFormat(QImage::Format_ARGB32), y = b.convertToFormat(QImage::Format_ARGB32);
	for(int i = 0; i < x.height(); ++i)
	{
		if(memcmp(x.constScanLine(i), y.constScanLine(i), size_t(4) * x.width()) != 0) { return false; }
	}
	return true;
}

static void images(context& c, rng& r, bool faulty)
{
	static const char* names[] = {"plain", "with space", "100%1", "a%2b%3", "%L1", "deep/er/dir", "dot.png", "\xc3\xa9t\xc3\xa9", "%%", "#x", "existing"};
	QString root = QString::fromStdString(c.scratch) + "/img";
	QDir(root).removeRecursively();
	QDir().mkpath(root);
	int threads = r.range(1, 8);
	QThreadPool::globalInstance()->setMaxThreadCount(faulty ? 1 : threads);
	{ QMutexLocker l(&g_lock); g_msgs.clear(); }
	size_t dests = r.range(1, 2), total = 0;
	struct sent { QString dir; size_t n; QImage im; };
	std::vector<sent> all;
	std::string text;
	bool blocked = false;
	{
		nbody_frame_compressor_image rec;
		for(size_t d = 0; d < dests; ++d)
		{
			QString dir = root + "/" + QString::number(d) + QString::fromUtf8(names[r.below(11)]);
			if(dir.endsWith("existing")) { QDir().mkpath(dir); QFile f(dir + "/other.txt"); f.open(QFile::WriteOnly); }
			if(r.chance(0.1) && !(faulty && d))	// the harness must be able to create the file
			{
				QDir().mkpath(QFileInfo(dir).path()); QDir(dir).removeRecursively(); QFile f(dir); f.open(QFile::WriteOnly); f.close();
				c.check(!rec.set_destination(dir), "destination", "a destination that is a file was accepted");
				c.ev("destinations refused");
				QFile::remove(dir);
			}
			if(!c.check(rec.set_destination(dir), "destination", "destination refused: " + dir.toStdString())) { return; }
			size_t frames = r.range(0, faulty ? 12 : 40), first = r.chance(0.7) ? 0 : r.below(200000000);
			text += fmt("%s%zu frames from %zu to %s", d ? "; " : "", frames, first, dir.mid(root.size()).toUtf8().data());
			c.set_desc(fmt("images threads=%d %s: %s", threads, faulty ? "storage faults" : "", text.c_str()));
			if(faulty && !blocked && r.chance(0.4) && frames)
			{
				blocked = true;
				QDir().mkpath(dir + QString("/%1.png").arg(first + r.below(frames), 8, 10, QChar('0')));
			}
			if(faulty && d == 0)
			{
				auto& s = faults::S();
				s.root = root.toStdString(); s.m = faults::fail; s.injected = 0; s.calls = 0; s.at = -1; s.cap = -1; s.err = r.chance(0.5) ? ENOSPC : EIO;
				if(r.chance(0.6)) { s.cap = static_cast<long long>(r.logu(1, 300000)); }
				else { s.at = r.below(60); s.sticky = r.chance(0.5); }
			}
			QImage im;
			for(size_t k = 0; k < frames; ++k)
			{
				int w = r.range(1, r.chance(0.1) ? 300 : 60), h = r.range(1, 60);
				im = picture(r, w, h, r.chance(0.7), formats[r.below(4)]);
				all.push_back({dir, first + k, im.copy()});
				rec.push_frame(im, first + k);
				if(r.chance(0.3)) { im.fill(0); }	// the caller may reuse its picture
				++total;
			}
		}
	}
	faults::S().m = faults::off;
	std::map<QString, size_t> count;
	size_t bad = 0;
	std::string first_bad;
	for(auto& s : all)
	{
		QString f = s.dir + QString("/%1.png").arg(s.n, 8, 10, QChar('0'));
		QImage im(f);
		bool ok = !im.isNull() && same(im, s.im);
		if(!ok)
		{
			if(!bad++) { first_bad = f.mid(root.size()).toStdString() + (im.isNull() ? " missing or unreadable" : " has other pixels"); }
			// a picture that loads must be the right one, whatever happened
			if(!faulty || !im.isNull()) { c.violation(faulty ? "wrong-image" : "image", first_bad); }
		}
		++count[s.dir];
		c.ev("frames looked up");
	}
	if(!faulty)
	{
		for(auto& d : count)
		{
			size_t have = QDir(d.first).entryList(QStringList("*.png"), QDir::Files).size();
			c.check(have == d.second, "extra-files", fmt("%zu image files for %zu frames in %s", have, d.second, d.first.toUtf8().data()));
		}
		c.check(bad > 0 || g_msgs.empty() || c.events["destinations refused"] > 0, "spurious-report", g_msgs.empty() ? "" : g_msgs[0]);
	}
	else
	{
		size_t reports = 0;
		for(auto& m : g_msgs) { reports += m.find(".png") != std::string::npos || m.find("rame") != std::string::npos; }
		c.ev("frames that could not be stored", bad);
		c.check(bad == 0 || !g_msgs.empty(), "unreported", fmt("%zu frames are not stored (first: %s) and nothing was reported", bad, first_bad.c_str()));
		c.check(reports >= bad, "unreported-some", fmt("%zu frames are not stored but only %zu were reported", bad, reports));
	}
	c.seen(c.desc);
	QDir(root).removeRecursively();
}

static void video(context& c, rng& r)
{
	int w = r.range(16, 90), h = r.range(16, 70);
	size_t frames = r.range(1, 12), dests = r.chance(0.3) ? 2 : 1;
	c.set_desc(fmt("video %dx%d %zu frames %zu files", w, h, frames, dests));
	std::vector<std::vector<QImage>> sent(dests);
	std::vector<std::string> files;
	{
		nbody_frame_compressor_opencv rec;
		for(size_t d = 0; d < dests; ++d)
		{
			files.push_back(c.scratch + fmt("/v%zu.avi", d));
			unlink(files[d].c_str());
			rec.set_destination(QString::fromStdString(files[d]));
			for(size_t k = 0; k < frames; ++k)
			{
				QImage im = picture(r, w, h, false, formats[r.below(4)]);
				sent[d].push_back(im);
				rec.push_frame(im, k);
			}
		}
	}
	for(size_t d = 0; d < dests; ++d)
	{
		cv::VideoCapture cap(files[d]);
		cv::Mat m;
		size_t n = 0;
		while(cap.read(m))
		{
			if(n < frames)
			{
				c.check(m.cols >= w - 1 && m.cols <= w && m.rows >= h - 1 && m.rows <= h, "video-size", fmt("%dx%d", m.cols, m.rows));
				QImage im = sent[d][n].convertToFormat(QImage::Format_RGB888);
				double err = 0;
				for(int y = 0; y < m.rows; ++y)
				{
					for(int x = 0; x < m.cols; ++x)
					{
						const cv::Vec3b& p = m.at<cv::Vec3b>(y, x);
						const uchar* q = im.constScanLine(y) + 3 * x;
						err += std::abs(p[2] - q[0]) + std::abs(p[1] - q[1]) + std::abs(p[0] - q[2]);
					}
				}
				err /= 3.0 * m.cols * m.rows;
				c.check(err < 10, "video-pixels", fmt("frame %zu of file %zu differs by %.1f of 255 on average", n, d, err));
				c.sample(fmt("mean pixel difference %.2f of 255", err));
				c.ev("video frames compared");
			}
			++n;
		}
		c.check(n == frames, "video-frames", fmt("file %zu has %zu frames, %zu were recorded", d, n, frames));
		unlink(files[d].c_str());
	}
	c.seen(c.desc);
}

int main(int argc, char** argv)
{
	context c(argc, argv);
	unsetenv("QT_LOGGING_RULES");
	setenv("OPENCV_LOG_LEVEL", "SILENT", 0);
	qInstallMessageHandler(handler);
	rng r(0);
	size_t runs = c.n(320, 6000);
	for(size_t k = 0; k < runs; ++k)
	{
		if(!c.begin("recorder", r)) { continue; }
		size_t kind = (k / c.shards) % 5;
		if(c.arg == "images") { images(c, r, kind >= 3); }
		else if(kind < 2) { images(c, r, false); }
		else if(kind < 4) { images(c, r, true); }
		else { video(c, r); }
		if(k % 64 == 63) { c.flush(); }
	}
	return c.done();
}
